"""Forward symbolic execution of real function bodies against contracts; emits verification conditions.

The verified text is the AST parsed from /repo's current source.  What the extraction drops is listed in DROPS.
"""
from __future__ import annotations
import ast
import copy
import textwrap
import z3
from . import ty
from .ty import T, INT, BOOL, REAL, STR, NONE, Unsupported, List, Tup, Opt, U

DROPS = [
    "logging calls (logger.*, print) and their arguments, docstrings, type annotations",
    "the text of f-strings and exception messages (opaque strings)",
    "locks used as context managers (treated as no-ops; no interference between lock regions is modelled)",
]
LOG_PREFIX = ("logger.", "print", "warnings.")


class V:
    __slots__ = ("t", "z")

    def __init__(self, t, z):
        self.t, self.z = t, z

    def __repr__(self):
        return f"V({self.t},{self.z})"


class Alias:
    __slots__ = ("root", "path", "t")

    def __init__(self, root, path, t):
        self.root, self.path, self.t = root, path, t


class Meta:
    """compile-time values"""
    t = None


class Seq(Meta):
    """a finite sequence: n, get(i)->value, optional place of the i-th element; kind for later use"""

    def __init__(self, n, get, et, src=None, lazy_iter=None, elem_place=None):
        self.n, self.get, self.et, self.src, self.lazy_iter, self.elem_place = n, get, et, src, lazy_iter, elem_place


class MTuple(Meta):
    def __init__(self, items):
        self.items = items


class Lam(Meta):
    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class GenExp(Meta):
    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class Py(Meta):
    """a Python-level constant or dotted name (module, class, function)"""

    def __init__(self, name):
        self.name = name


class Poly(Meta):
    """empty container literal whose element type is not yet known"""

    def __init__(self, kind, factory=None):
        self.kind, self.factory = kind, factory


class State:
    __slots__ = ("env", "pc", "ghost", "shared", "facts", "unwrapped")

    def __init__(self):
        self.env, self.pc, self.ghost, self.shared = {}, [], {}, []
        self.facts = None
        self.unwrapped = None

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.shared = list(self.shared)
        return s


class Obl:
    def __init__(self, name, hyps, goal, kind, state, line=None):
        self.name, self.hyps, self.goal, self.kind, self.line = name, hyps, goal, kind, line
        self.result = None
        self.reason = ""


class Restart(Exception):
    pass


BASES = {"StopIteration": {"Exception"}, "KeyError": {"LookupError", "Exception"}, "IndexError": {"LookupError", "Exception"},
         "ValueError": {"Exception"}, "RuntimeError": {"Exception"}, "AssertionError": {"Exception"},
         "ZeroDivisionError": {"ArithmeticError", "Exception"}, "NotImplementedError": {"RuntimeError", "Exception"},
         "TypeError": {"Exception"}, "ConnectionError": {"OSError", "Exception"}, "TimeoutError": {"OSError", "Exception"},
         "FileNotFoundError": {"OSError", "Exception"}, "Empty": {"Exception"}, "Exception": set()}


def exc_match(exc, handler):
    return handler is None or handler == "BaseException" or exc == handler or handler in BASES.get(exc, {"Exception"})


MUTATORS = {"append", "extend", "add", "pop", "update", "sort", "remove", "clear", "insert", "discard", "setdefault", "reverse"}


class Engine:
    def __init__(self, lib, modtree, fn, contract, owner=None, modname=""):
        """lib: Library of contracts; fn: ast.FunctionDef; owner: ClassDef or None"""
        self.lib, self.modtree, self.fn, self.c, self.owner = lib, modtree, fn, contract, owner
        self.modname = modname
        self.obls = []
        self.frame_no = 0
        self.frames = ["0"]
        self.frame_info = {"0": (modtree, owner)}
        self.handlers = []
        self.writes = []          # stack of sets
        self.modcache = {}
        self.loops_seen = {}
        self.loop_order = []
        self.call_depth = 0
        self.assumptions = set()
        self.sinks = []
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(fn))
        self.old = None
        self.ext_used = set()
        self.called_contracts = set()
        self.inlined = set()
        self.inlined_nodes = []
        self.spec_loop_stack = []
        self.strlits = {}
        self.comp_elem = {}
        self.funcs = {}
        self.quiet = 0
        self.loop_ghost = []
        self.dead_checks = []

    # ------------------------------------------------------------------ utilities
    @property
    def frame(self):
        return self.frames[-1]

    def q(self, name, frame=None):
        return f"{frame or self.frame}:{name}"

    def emit(self, name, st, goal, kind="obl", line=None, hints=None):
        if self.quiet:
            return
        goal = z3.simplify(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        if z3.is_true(goal):
            self.obls.append(Obl(name, None, goal, kind, None, line))
            return
        o = Obl(name, _dedupe(st.pc), goal, kind, None, line)
        o.hints = self.hints(st) if hints is None else hints
        self.obls.append(o)

    def hints(self, st):
        out = []
        for h in self.c.get("hints", []):
            try:
                v = self.spec_bool(h, st)
                out.append(v)
            except (Unsupported, KeyError):
                pass
        return out

    def strlit(self, s):
        if s not in self.strlits:
            self.strlits[s] = z3.Const(f"str_{len(self.strlits)}_{''.join(c if c.isalnum() else '_' for c in s[:20])}", ty.sort(STR))
        return self.strlits[s]

    def str_axioms(self):
        cs = list(self.strlits.values())
        return [z3.Distinct(*cs)] if len(cs) > 1 else []

    def fresh_value(self, name, t, st, wf=True):
        v = V(t, ty.fresh(name, ty.sort(t)))
        if wf and ty.needs_wf(t):
            st.pc.extend(ty.wf(t, v.z))
        return v

    def named(self, v, st, hint="t"):
        """name the components of a freshly built container to keep terms small"""
        t, z = v.t, v.z
        if t.kind in ("List", "Nd", "Dict", "DefaultDict", "Set", "Iter", "Cell", "Tuple") and z3.is_app(z) and z.decl().eq(ty.sort(t).constructor(0)):
            parts = []
            for i in range(z.num_args()):
                a = z.arg(i)
                if z3.is_app(a) and a.num_args() > 0 and not z3.is_int_value(a):
                    c = ty.fresh(hint, a.sort())
                    st.pc.append(c == a)
                    self.lib.cdef[c.get_id()] = (c, a)
                    parts.append(c)
                    if a.get_id() in self.lib.dhist:
                        self.lib.dhist[c.get_id()] = (c, self.lib.dhist[a.get_id()][1])
                else:
                    parts.append(a)
            return V(t, ty.sort(t).constructor(0)(*parts))
        if z3.is_app(z) and z.num_args() > 0 and t.kind in ("List", "Dict", "DefaultDict", "Set", "Iter"):
            c = ty.fresh(hint, z.sort())
            st.pc.append(c == z)
            return V(t, c)
        return v

    def wf_assume(self, v, st):
        if ty.needs_wf(v.t):
            z = v.z
            if not (z3.is_app(z) and z.num_args() == 0):
                c = ty.fresh("w", z.sort())
                st.pc.append(c == z)
                z = c
            st.pc.extend(ty.wf(v.t, z))
            return V(v.t, z)
        return v

    # ------------------------------------------------------------------ coercions
    def coerce(self, v, t, st, what=""):
        if isinstance(v, Poly):
            if t.kind == "Opt":
                return self.coerce(self.coerce(v, t.args[0], st), t, st)
            if v.kind == "List" and t.kind == "List" or v.kind == "Dict" and t.isdict or v.kind == "Set" and t.kind == "Set":
                return V(t, ty.empty(t))
            raise Unsupported(f"empty {v.kind} as {t}")
        if isinstance(v, MTuple):
            if t.kind == "Opt":
                return self.coerce(self.coerce(v, t.args[0], st), t, st)
            if t.kind == "Tuple" and len(t.args) == len(v.items):
                items = [self.coerce(x, a, st) for x, a in zip(v.items, t.args)]
                return V(t, ty.mk(t, *[x.z for x in items]))
            if t.kind == "List":
                return self.list_of([self.coerce(x, t.args[0], st) for x in v.items], t)
            raise Unsupported(f"tuple as {t}")
        if isinstance(v, Seq):
            if t.kind == "List":
                return self.seq_to_list(v, st, t)
            if t.kind == "Iter":
                l = self.seq_to_list(v, st, List(t.args[0]))
                return V(t, ty.mk(t, ty.l_arr(l.t, l.z), ty.l_len(l.t, l.z), z3.IntVal(0)))
            raise Unsupported(f"sequence as {t}")
        if type(v).__name__ == "NdSeq" and t.kind == "Nd":
            from . import nd
            return nd.store(self, v, st, t.args[0])
        if isinstance(v, Meta):
            if isinstance(v, Py) and v.name.startswith("exc:"):     # the exception that was caught: an unknown object, not None
                if t.kind == "Opt":
                    return self.coerce(self.coerce(v, t.args[0], st), t, st)
                return self.fresh_value("exc", t, st)
            raise Unsupported(f"{type(v).__name__} {getattr(v, 'name', '')} used as value of type {t}")
        if v.t is t:
            return v
        if ty.canon(v.t) is ty.canon(t):
            return V(t, v.z)
        if t.kind == "Opt":
            if v.t is NONE:
                return V(t, ty.none(t))
            return V(t, ty.some(t, self.coerce(v, t.args[0], st).z))
        if v.t.kind == "Opt" and t.kind != "Opt":
            self.emit(f"value is not None {what}", st, z3.Not(ty.is_none(v.t, v.z)), "none")
            st.pc.append(z3.Not(ty.is_none(v.t, v.z)))
            return self.coerce(V(v.t.args[0], ty.unopt(v.t, v.z)), t, st)
        if t is REAL and v.t is INT:
            return V(REAL, z3.ToReal(v.z))
        if t is INT and v.t is BOOL:
            return V(INT, z3.If(v.z, z3.IntVal(1), z3.IntVal(0)))
        if t is REAL and v.t is BOOL:
            return V(REAL, z3.If(v.z, z3.RealVal(1), z3.RealVal(0)))
        if v.t.kind == "Tuple" and t.kind == "Tuple" and len(v.t.args) == len(t.args):
            parts = [self.coerce(V(a, ty.acc(v.t, v.z, i)), b, st) for i, (a, b) in enumerate(zip(v.t.args, t.args))]
            return V(t, ty.mk(t, *[p.z for p in parts]))
        if t.kind == "U" and (v.t, t) in self.lib.inject:      # a value of one type used as a value of a union type
            return V(t, self.func(self.lib.inject[(v.t, t)], [v.t], t)(v.z))
        if v.t.kind == "List" and t.kind == "List":
            return self.seq_to_list(self.seq_of(v, st), st, t)
        if v.t.kind == "List" and t.kind == "Iter" and v.t.args == t.args:
            return V(t, ty.mk(t, ty.l_arr(v.t, v.z), ty.l_len(v.t, v.z), z3.IntVal(0)))
        raise Unsupported(f"cannot use {v.t} as {t} {what}")

    def list_of(self, vs, t):
        arr = ty.default_arr(t.args[0])
        for i, v in enumerate(vs):
            arr = z3.Store(arr, i, v.z)
        return V(t, ty.mk(t, arr, z3.IntVal(len(vs))))

    def infer(self, v):
        if isinstance(v, V):
            return v.t
        if isinstance(v, MTuple):
            return Tup(*[self.infer(x) for x in v.items])
        if isinstance(v, Seq):
            return List(v.et)
        if type(v).__name__ == "NdSeq":
            return T("Nd", (v.et,))
        raise Unsupported(f"cannot infer the type of {type(v).__name__} {getattr(v, 'name', '')}")

    def mat(self, v, st):
        """materialise a meta value as a V"""
        return v if isinstance(v, V) else self.coerce(v, self.infer(v), st)

    def truth(self, v, st):
        if isinstance(v, Seq):
            return v.n > 0
        if isinstance(v, MTuple):
            return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, Poly):
            return z3.BoolVal(False)
        if isinstance(v, Meta):
            raise Unsupported("truth of meta value")
        k = v.t.kind
        if k == "Bool":
            return v.z
        if k in ("Int", "Real"):
            return v.z != 0
        if k == "List":
            return ty.l_len(v.t, v.z) > 0
        if v.t.isdict or k == "Set":
            return ty.d_n(v.t, v.z) > 0
        if k == "Opt":
            inner = V(v.t.args[0], ty.unopt(v.t, v.z))
            try:
                tv = self.truth(inner, st)
            except Unsupported:
                tv = z3.BoolVal(True)
            return z3.And(z3.Not(ty.is_none(v.t, v.z)), tv)
        if k == "None":
            return z3.BoolVal(False)
        if k == "Str":
            return v.z != self.strlit("")
        if k == "U" and v.t.name in self.lib.truthy:
            return z3.BoolVal(True)
        raise Unsupported(f"truth value of {v.t}")

    # ------------------------------------------------------------------ sequences
    def seq_to_list(self, s, st, t=None):
        et = t.args[0] if t is not None else s.et
        lt = List(et)
        if getattr(s, "arr", None) is not None and s.et is et:
            return V(lt, ty.mk(lt, s.arr, s.n))
        if s.src is not None and s.src.t.kind == "List" and s.src.t.args[0] is et and s.lazy_iter is None:
            return s.src
        if z3.is_int_value(s.n) and s.n.as_long() <= 8:
            return self.list_of([self.coerce(s.get(z3.IntVal(i), st), et, st) for i in range(s.n.as_long())], lt)
        arr = ty.fresh("seq", z3.ArraySort(z3.IntSort(), ty.sort(et)))
        i = ty.fresh("i", z3.IntSort())
        sub = st.copy()
        base = len(sub.pc)
        sub.pc.append(z3.And(0 <= i, i < s.n))
        e = self.coerce(s.get(i, sub), et, sub)
        side = sub.pc[base + 1:]
        body = z3.And(*side, z3.Select(arr, i) == e.z) if side else z3.Select(arr, i) == e.z
        st.pc.append(ty.forall([i], z3.Implies(z3.And(0 <= i, i < s.n), body), [z3.Select(arr, i)]))
        n = s.n
        return V(lt, ty.mk(lt, arr, z3.If(n >= 0, n, 0) if not _nonneg(n) else n))

    def seq_of(self, v, st, place=None):
        """iteration view of a value (dict -> keys)"""
        if isinstance(v, Seq):
            return v
        if isinstance(v, MTuple):
            et = self.infer(v.items[0]) if v.items else INT
            lst = self.list_of([self.coerce(x, et, st) for x in v.items], List(et))
            return self.seq_of(lst, st)
        if isinstance(v, Poly):
            return Seq(z3.IntVal(0), lambda i, st: V(INT, z3.IntVal(0)), INT)
        if isinstance(v, Meta):
            raise Unsupported(f"iterating {type(v).__name__}")
        if v.t.kind == "Opt":
            v = self.coerce(v, v.t.args[0], st)
        t, z = v.t, v.z
        if t in self.lib.views:         # iterating a value of a union type: the list it holds
            f, lt = self.lib.views[t]
            return self.seq_of(self.wf_assume(V(lt, self.func(f, [t], lt)(z)), st), st)
        if t.kind in ("List", "Nd"):
            ep = None
            if place is not None and t.args[0].mutable:
                root, path, _ = place
                ep = lambda i: (root, path + [("i", i)], t.args[0])
            return Seq(ty.l_len(t, z), lambda i, st: V(t.args[0], z3.Select(ty.l_arr(t, z), i)), t.args[0], src=v, elem_place=ep)
        if t.isdict or t.kind == "Set":
            v = self.wf_assume(v, st)
            z = v.z
            keys = ty.d_keys(t, z)
            r = Seq(ty.d_n(t, z), lambda i, st: V(t.args[0], z3.Select(keys, i)), t.args[0], src=v)
            r.arr = keys
            return r
        if t.kind == "Iter":
            return Seq(ty.it_n(t, z) - ty.it_pos(t, z), lambda i, st: V(t.args[0], z3.Select(ty.it_arr(t, z), ty.it_pos(t, z) + i)),
                       t.args[0], src=v, lazy_iter=place)
        raise Unsupported(f"iterating {t}")

    def dict_view(self, v, which, st, place=None):
        v = self.wf_assume(v, st)
        t, z = v.t, v.z
        K, W = t.args
        keys, val = ty.d_keys(t, z), ty.d_val(t, z)
        vp = None
        if place is not None and W.mutable:
            root, path, _ = place
            vp = lambda i: (root, path + [("k", z3.Select(keys, i))], W)

        def getv(i, st):
            if place is not None:       # Python reads the current value while iterating
                try:
                    cur = self.read_path(place[0], place[1], st)
                    if cur.t.isdict:
                        return V(W, z3.Select(ty.d_val(cur.t, cur.z), z3.Select(keys, i)))
                except (KeyError, Unsupported):
                    pass
            return V(W, z3.Select(val, z3.Select(keys, i)))
        if which == "keys":
            r = Seq(ty.d_n(t, z), lambda i, st: V(K, z3.Select(keys, i)), K, src=v)
            r.arr = keys
            return r
        if which == "values":
            return Seq(ty.d_n(t, z), getv, W, src=v, elem_place=vp)
        tt = Tup(K, W)
        s = Seq(ty.d_n(t, z), lambda i, st: MTuple([V(K, z3.Select(keys, i)), getv(i, st)]), tt, src=v)
        if vp is not None:
            s.elem_place = lambda i: [None, vp(i)]
        return s

    # ------------------------------------------------------------------ places
    def lookup(self, name, st):
        """frames are searched innermost first only in spec mode; code sees its own frame"""
        k = self.q(name)
        if k in st.env:
            return k
        return None

    def read_path(self, root, path, st):
        v = st.env[root]
        if isinstance(v, Alias):
            return self.read_path(v.root, list(v.path) + list(path), st)
        return self._rd(v, path, st)

    def _rd(self, v, path, st):
        for kind, x in path:
            if isinstance(v, Meta):
                raise Unsupported("path through meta value")
            if v.t.kind == "Opt":
                v = V(v.t.args[0], ty.unopt(v.t, v.z))
            if kind == "i":
                if v.t.kind == "Tuple":
                    v = V(v.t.args[x], ty.acc(v.t, v.z, x))
                else:
                    v = V(v.t.args[0], z3.Select(ty.l_arr(v.t, v.z), x))
            elif kind == "k":
                v = V(v.t.args[1], self.rselect(ty.d_val(v.t, v.z), x))
            elif kind == "c":
                v = V(v.t.args[0], ty.acc(v.t, v.z, 0))
            elif kind == "m":   # heap map field: env root is Map[Ref,T]
                v = V(v.t.args[1], z3.Select(v.z, x))
        return v

    def _wr(self, v, path, new, st):
        if not path:
            return self.coerce(new, v.t, st) if not isinstance(v, Poly) else new
        (kind, x), rest = path[0], path[1:]
        if v.t.kind == "Opt":
            inner = V(v.t.args[0], ty.unopt(v.t, v.z))
            w = self._wr(inner, path, new, st)
            return V(v.t, ty.some(v.t, w.z))
        if kind == "i":
            arr = ty.l_arr(v.t, v.z)
            el = V(v.t.args[0], z3.Select(arr, x))
            w = self._wr(el, rest, new, st)
            return V(v.t, ty.mk(v.t, z3.Store(arr, x, w.z), ty.l_len(v.t, v.z)))
        if kind == "k":
            el = V(v.t.args[1], self.rselect(ty.d_val(v.t, v.z), x))
            w = self._wr(el, rest, new, st)
            return self.dict_set(v, x, w.z, present=bool(rest))
        if kind == "c":
            el = V(v.t.args[0], ty.acc(v.t, v.z, 0))
            w = self._wr(el, rest, new, st)
            return V(v.t, ty.mk(v.t, w.z))
        if kind == "m":
            el = V(v.t.args[1], z3.Select(v.z, x))
            w = self._wr(el, rest, new, st)
            return V(v.t, z3.Store(v.z, x, w.z))
        raise Unsupported("path")

    def rdef(self, z, steps=4):
        """the definition of a named component of a container"""
        while steps and z3.is_const(z) and z.get_id() in self.lib.cdef:
            z = self.lib.cdef[z.get_id()][1]
            steps -= 1
        return z

    def rselect(self, arr, x):
        r = self.rdef(arr)
        if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_STORE and r.arg(1).eq(x):
            return r.arg(2)
        return z3.Select(arr, x)

    def dict_set(self, d, k, v, present=False):
        t, z = d.t, d.z
        keys, n, dom, val, idx = (ty.acc(t, z, i) for i in range(5))
        rd, rv = self.rdef(dom), self.rdef(val)
        if z3.is_app(rd) and rd.decl().kind() == z3.Z3_OP_STORE and rd.arg(1).eq(k) and z3.is_true(rd.arg(2)):
            present = True      # the key was stored just now
            if z3.is_app(rv) and rv.decl().kind() == z3.Z3_OP_STORE and rv.arg(1).eq(k) and val.get_id() in self.lib.dhist:
                nv = z3.Store(rv.arg(0), k, v)
                self.lib.dhist[nv.get_id()] = (nv, self.lib.dhist[val.get_id()][1])
                return V(t, ty.mk(t, keys, n, dom, nv, idx))
        nv = z3.Store(val, k, v)
        self.lib.dhist[nv.get_id()] = (nv, (keys, n, dom, val, idx, k, ty.wf(T("Dict", (t.args[0], U("_opaque"))), None) if False else self.dict_wf(t, keys, n, dom, idx)))
        if present:
            return V(t, ty.mk(t, keys, n, dom, nv, idx))
        has = z3.Select(dom, k)
        return V(t, ty.mk(t, z3.If(has, keys, z3.Store(keys, n, k)), z3.If(has, n, n + 1), z3.Store(dom, k, z3.BoolVal(True)),
                          nv, z3.If(has, idx, z3.Store(idx, k, n))))

    def dict_wf(self, t, keys, n, dom, idx):
        i, k = ty.fresh("i", z3.IntSort()), ty.fresh("k", ty.sort(t.args[0]))
        return [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(dom, z3.Select(keys, i)), z3.Select(idx, z3.Select(keys, i)) == i))),
                z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(z3.Select(idx, k) >= 0, z3.Select(idx, k) < n,
                                                                    z3.Select(keys, z3.Select(idx, k)) == k)))]

    def set_add(self, d, k):
        t, z = d.t, d.z
        keys, n, dom, idx = (ty.acc(t, z, i) for i in range(4))
        has = z3.Select(dom, k)
        return V(t, ty.mk(t, z3.If(has, keys, z3.Store(keys, n, k)), z3.If(has, n, n + 1), z3.Store(dom, k, z3.BoolVal(True)),
                          z3.If(has, idx, z3.Store(idx, k, n))))

    def dict_del(self, d, k, st):
        t = d.t
        d = self.wf_assume(d, st)
        new = ty.fresh("del", ty.sort(t))
        st.pc.append(ty.d_n(t, new) == ty.d_n(t, d.z) - 1)
        st.pc.append(ty.d_dom(t, new) == z3.Store(ty.d_dom(t, d.z), k, z3.BoolVal(False)))
        if t.isdict:
            st.pc.append(ty.d_val(t, new) == ty.d_val(t, d.z))
        r = V(t, new)
        st.pc.extend(ty.wf(t, new))
        return r

    def record_write(self, root):
        for w in self.writes:
            w.add(root)

    def write_path(self, root, path, new, st, replace=True):
        v = st.env.get(root)
        if isinstance(v, Alias):
            return self.write_path(v.root, list(v.path) + list(path), new, st, replace)
        self.check_shared(root, path, st)
        if not path:
            # binding a whole root (field assignment)
            self.record_write(root)
            t = v.t if isinstance(v, V) else None
            nv = self.coerce(new, t, st) if t is not None else new
            st.env[root] = self.named(nv, st, root.split(":")[-1]) if isinstance(nv, V) else nv
            if replace:
                self.break_aliases(root, path, st)
            return
        self.record_write(root)
        if isinstance(v, Poly):
            raise Unsupported(f"mutation of untyped empty container {root}; declare its type in the contract")
        w = self._wr(v, path, new, st)
        st.env[root] = self.named(w, st, root.split(":")[-1])
        if replace:
            self.break_aliases(root, path, st)

    def break_aliases(self, root, path, st):
        """the object at root/path has been replaced: names that alias it or its parts would keep the old object"""
        for n, b in list(st.env.items()):
            if isinstance(b, Alias) and b.root == root:
                r = _path_cmp(path, b.path)
                if r == "distinct" or (r == "shorter"):
                    continue
                st.env[n] = Alias("!broken", [], b.t)

    def check_shared(self, root, path, st):
        for (r, p) in st.shared:
            if r == root and _path_cmp(path, p) != "distinct":
                raise Unsupported(f"mutation of a container that is also referenced elsewhere ({root})")

    def mark_shared(self, place, st):
        if place is None:
            return
        root, path, t = place
        b = st.env.get(root)
        if isinstance(b, Alias):
            root, path = b.root, list(b.path) + list(path)
        st.shared = st.shared + [(root, list(path))]

    def place(self, node, st):
        """-> (root, path, type) or None; emits the implicit checks of subscripting (KeyError/IndexError)"""
        if isinstance(node, ast.Name):
            k = self.lookup(node.id, st)
            if k is None:
                return None
            b = st.env[k]
            if isinstance(b, Alias):
                if b.root == "!broken":
                    raise Unsupported(f"alias {node.id} of a replaced object")
                return (b.root, list(b.path), b.t)
            if isinstance(b, V):
                return (k, [], b.t)
            return (k, [], None)
        if isinstance(node, ast.Attribute):
            dn = dotted(node)
            if dn and ("fld:" + dn) in st.env:
                b = st.env["fld:" + dn]
                if isinstance(b, Alias):
                    return (b.root, list(b.path), b.t)
                return ("fld:" + dn, [], b.t if isinstance(b, V) else None)
            # Cell value: x.value
            if node.attr == "value":
                bp = self.place_cell(node.value, st)
                if bp is not None:
                    return (bp[0], bp[1] + [("c", None)], bp[2].args[0])
            # heap field of a reference-sorted value
            cls_fields = None
            try:
                outs = self.ev(node.value, st.copy() if False else st)
            except Unsupported:
                return None
            if len(outs) == 1 and isinstance(outs[0][1], V):
                bv = outs[0][1]
                if bv.t.kind == "Opt" and bv.t.args[0].kind == "U":
                    bv = self.coerce(bv, bv.t.args[0], st)
                if bv.t.kind == "U":
                    hk = f"heap:{bv.t.name}.{node.attr}"
                    if hk in st.env:
                        return (hk, [("m", bv.z)], st.env[hk].t.args[1])
            return None
        if isinstance(node, ast.Subscript):
            p = self.place(node.value, st)
            if p is None or p[2] is None:
                return None
            root, path, t = p
            if t.kind == "Opt":
                cur = self.read_path(root, path, st)
                self.emit("subscripted value is not None", st, z3.Not(ty.is_none(cur.t, cur.z)), "none", node.lineno)
                st.pc.append(z3.Not(ty.is_none(cur.t, cur.z)))
                t = t.args[0]
            if t.kind == "Tuple" or isinstance(node.slice, ast.Slice):
                return None
            outs = self.ev(node.slice, st)
            if len(outs) != 1:
                raise Unsupported("branching subscript")
            iv = outs[0][1]
            if t.kind == "List":
                i = self.coerce(iv, INT, st).z
                cur = self.read_path(root, path, st)
                n = ty.l_len(cur.t, cur.z)
                i = norm_index(i, n)
                return (root, path + [("i", i)], t.args[0])
            if t.isdict:
                k = self.coerce(iv, t.args[0], st).z
                return (root, path + [("k", k)], t.args[1])
        if isinstance(node, ast.Call):
            # x.get_obj() of a Cell
            return self.place_cell(node, st)
        return None

    def place_cell(self, node, st):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "get_obj":
            node = node.func.value
        p = self.place(node, st) if not isinstance(node, ast.Call) else None
        if p is not None and p[2] is not None and p[2].kind == "Cell":
            return p
        return None

    def may_raise(self, exc, cond_ok, st, what, line):
        """implicit exception: fork if it can be handled, else an obligation; st continues with cond_ok"""
        cond_ok = z3.simplify(cond_ok)
        if z3.is_true(cond_ok):
            return
        if self.can_handle(exc):
            bad = st.copy()
            bad.pc.append(z3.Not(cond_ok))
            self.sinks[-1].append(("raise", bad, exc))
            st.pc.append(cond_ok)
            return
        self.emit(f"{what}", st, cond_ok, "safety", line)
        st.pc.append(cond_ok)

    def can_handle(self, exc):
        for hs in self.handlers:
            if any(exc_match(exc, h) for h in hs):
                return True
        return exc in self.c.get("raises", {})

    def check_place_read(self, node, st):
        """implicit checks for reading node as a place, outermost last; also inserts defaults for defaultdicts"""
        if isinstance(node, ast.Subscript) and not isinstance(node.slice, ast.Slice):
            self.check_place_read(node.value, st)
            p = self.place(node.value, st)
            if p is None or p[2] is None:
                return
            root, path, t = p
            cur = self.read_path(root, path, st)
            if t.kind == "Opt":
                t = t.args[0]
                cur = V(t, ty.unopt(cur.t, cur.z))
            if t.kind == "List":
                i = self.coerce(self.ev1(node.slice, st), INT, st).z
                n = ty.l_len(t, cur.z)
                self.may_raise("IndexError", z3.And(-n <= i, i < n) if not _nonneg(i) else i < n, st, f"index in range: {ast.unparse(node)}", node.lineno)
            elif t.isdict:
                k = self.coerce(self.ev1(node.slice, st), t.args[0], st).z
                if t.kind == "DefaultDict":
                    dv = self.default_of(t.args[1])
                    has = z3.Select(ty.d_dom(t, cur.z), k)
                    newv = z3.If(has, self.rselect(ty.d_val(t, cur.z), k), dv)
                    if t.args[1].isdict:        # named, with the facts every dictionary satisfies
                        newv = self.wf_assume(V(t.args[1], newv), st).z
                    self.write_path(root, path, self.dict_set(cur, k, newv), st, replace=False)
                else:
                    self.may_raise("KeyError", z3.Select(ty.d_dom(t, cur.z), k), st, f"key present: {ast.unparse(node)}", node.lineno)
        elif isinstance(node, ast.Attribute):
            pass

    def default_of(self, t):
        if t.kind in ("List", "Set") or t.isdict:
            return ty.empty(t)
        if t is INT:
            return z3.IntVal(0)
        raise Unsupported(f"default of {t}")

    # ------------------------------------------------------------------ expressions
    def ev1(self, node, st):
        outs = self.ev(node, st)
        if len(outs) != 1 or outs[0][0] is not st:
            raise Unsupported(f"branching expression {ast.unparse(node)[:60]}")
        return outs[0][1]

    def ev(self, node, st):
        m = getattr(self, "ev_" + type(node).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(node).__name__}: {ast.unparse(node)[:80]}")
        return m(node, st)

    def ev_Constant(self, node, st):
        return [(st, self.const(node.value))]

    def const(self, v):
        if v is None:
            return V(NONE, z3.BoolVal(False))
        if isinstance(v, bool):
            return V(BOOL, z3.BoolVal(v))
        if isinstance(v, int):
            return V(INT, z3.IntVal(v))
        if isinstance(v, float):
            from fractions import Fraction
            f = Fraction(str(v))
            return V(REAL, z3.Q(f.numerator, f.denominator))
        if isinstance(v, bytes):
            return self.list_of([V(INT, z3.IntVal(b)) for b in v], List(INT))
        if isinstance(v, str):
            return V(STR, self.strlit(v))
        raise Unsupported(f"constant {v!r}")

    def ev_JoinedStr(self, node, st):
        return [(st, V(STR, ty.fresh("fstr", ty.sort(STR))))]

    def ev_Name(self, node, st):
        k = self.lookup(node.id, st)
        if k is not None:
            b = st.env[k]
            if isinstance(b, Alias):
                if b.root == "!broken":
                    raise Unsupported(f"alias {node.id} of a replaced object")
                if b.root == "!unbound":
                    raise Unsupported(f"{node.id} may be unbound or havocked")
                return [(st, self.read_path(b.root, b.path, st))]
            return [(st, b)]
        mc = self.module_const(node.id)
        if mc is not None:
            return [(st, mc)]
        return [(st, Py(node.id))]

    def module_const(self, name):
        mod = self.frame_info[self.frame][0]
        for s in mod.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name:
                if isinstance(s.value, ast.Constant):
                    return self.const(s.value.value)
        if name in self.c.get("consts", {}):
            c = self.c["consts"][name]
            if isinstance(c, str) and c.startswith("uf:"):      # a value known by name only
                t = ty.parse(c.split(":")[1])
                return V(t, self.func(c.split(":")[2], [], t)())
            return self.const(c)
        return None

    def ev_Attribute(self, node, st):
        dn = dotted(node)
        if dn and dn in self.lib.models_attr(self.c):
            return [(st, self.lib.models_attr(self.c)[dn](self, st))]
        p = self.place(node, st)
        if p is not None and p[2] is not None:
            return [(st, self.read_path(p[0], p[1], st))]
        if p is not None:
            return [(st, st.env[p[0]])]
        # property of self: inline
        if isinstance(node.value, ast.Name) and node.value.id == "self":
            f = self.find_method(node.attr)
            if f is not None and any(isinstance(d, ast.Name) and d.id in ("property", "classmethod", "staticmethod") for d in f.decorator_list):
                if any(isinstance(d, ast.Name) and d.id == "property" for d in f.decorator_list):
                    return self.inline_call(f, [Py("self")], {}, st, node)
        outs = []
        for s, b in self.ev(node.value, st):
            if isinstance(b, Py):
                outs.append((s, Py(f"{b.name}.{node.attr}")))
                continue
            if isinstance(b, V):
                if b.t.kind == "Opt":
                    b = self.coerce(b, b.t.args[0], s)
                if b.t.kind == "U":
                    fk = (b.t.name, node.attr)
                    if fk in self.lib.attrs:
                        rt = self.lib.attrs[fk]
                        f = self.func(f"attr_{b.t.name}_{node.attr}", [b.t], rt)
                        r = V(rt, f(b.z))
                        s.pc.extend(ty.wf(rt, r.z))
                        outs.append((s, r))
                        continue
            raise Unsupported(f"attribute {ast.unparse(node)}")
        return outs

    def func(self, name, ats, rt):
        return z3.Function(name, *[ty.sort(a) for a in ats], ty.sort(rt))

    def ev_Subscript(self, node, st):
        if isinstance(node.slice, ast.Slice):
            return self.ev_slice(node, st)
        # tuple constant index / meta tuple
        p = None
        try:
            self_base = self.place(node.value, st)
        except Unsupported:
            raise
        if self_base is not None and self_base[2] is not None and (self_base[2].kind in ("List",) or self_base[2].isdict or
                                                                  (self_base[2].kind == "Opt" and self_base[2].args[0].kind != "Tuple")):
            self.check_place_read(node, st)
            p = self.place(node, st)
            return [(st, self.read_path(p[0], p[1], st))]
        outs = []
        for s, b in self.ev(node.value, st):
            for s2, i in self.ev(node.slice, s):
                outs.append((s2, self.index(b, i, s2, node)))
        return outs

    def index(self, b, i, st, node):
        from . import nd
        if nd.isnd(b):
            return nd.subscript(self, b, i, st, node)
        if isinstance(b, MTuple):
            if isinstance(i, V) and z3.is_int_value(i.z):
                return b.items[i.z.as_long()]
            raise Unsupported("symbolic tuple index")
        if isinstance(b, Seq):
            b = self.seq_to_list(b, st)
        if isinstance(b, V):
            if b.t.kind == "Opt":
                b = self.coerce(b, b.t.args[0], st)
            if b.t.kind == "Tuple":
                iz = z3.simplify(i.z)
                if z3.is_int_value(iz):
                    j = iz.as_long()
                    j = j + len(b.t.args) if j < 0 else j
                    return V(b.t.args[j], ty.acc(b.t, b.z, j))
                raise Unsupported("symbolic tuple index")
            if b.t.kind == "List":
                n = ty.l_len(b.t, b.z)
                iz = self.coerce(i, INT, st).z
                self.may_raise("IndexError", z3.And(-n <= iz, iz < n), st, f"index in range: {ast.unparse(node)}", getattr(node, "lineno", None))
                return V(b.t.args[0], z3.Select(ty.l_arr(b.t, b.z), norm_index(iz, n)))
            if b.t.isdict:
                k = self.coerce(i, b.t.args[0], st).z
                self.may_raise("KeyError", z3.Select(ty.d_dom(b.t, b.z), k), st, f"key present: {ast.unparse(node)}", getattr(node, "lineno", None))
                return V(b.t.args[1], z3.Select(ty.d_val(b.t, b.z), k))
            if b.t.kind == "Map":
                return V(b.t.args[1], z3.Select(b.z, self.coerce(i, b.t.args[0], st).z))
        raise Unsupported(f"subscript of {b}")

    def ev_slice(self, node, st):
        outs = []
        from . import nd
        for s, b in self.ev(node.value, st):
            if nd.isnd(b):
                outs.append((s, nd.slice_(self, b, node.slice, s)))
                continue
            b = self.mat(b, s)
            if b.t.kind == "Opt":
                b = self.coerce(b, b.t.args[0], s)
            if b.t.kind != "List" or node.slice.step is not None:
                raise Unsupported("slice")
            n = ty.l_len(b.t, b.z)

            def clamp(e, dflt):
                if e is None:
                    return dflt
                z = self.coerce(self.ev1(e, s), INT, s).z
                z = norm_index(z, n)
                return z3.If(z < 0, z3.IntVal(0), z3.If(z > n, n, z))
            lo, hi = clamp(node.slice.lower, z3.IntVal(0)), clamp(node.slice.upper, n)
            lo, hi = z3.simplify(lo), z3.simplify(hi)
            ln = z3.If(hi > lo, hi - lo, z3.IntVal(0))
            arr = ty.fresh("slice", z3.ArraySort(z3.IntSort(), ty.sort(b.t.args[0])))
            i = ty.fresh("i", z3.IntSort())
            src = ty.l_arr(b.t, b.z)
            s.pc.append(ty.forall([i], z3.Implies(z3.And(0 <= i, i < ln), z3.Select(arr, i) == z3.Select(src, lo + i)), [z3.Select(arr, i)]))
            lc = ty.fresh("slen", z3.IntSort())
            s.pc.append(lc == ln)
            jj = ty.fresh("j", z3.IntSort())
            if _patternable(z3.Select(src, jj)):
                s.pc.append(ty.forall([jj], z3.Implies(z3.And(lo <= jj, jj < lo + ln), z3.Select(arr, jj - lo) == z3.Select(src, jj)), [z3.Select(src, jj)]))
            self.lib.ahist[arr.get_id()] = ("slice", arr, src, lo, lc)
            outs.append((s, V(b.t, ty.mk(b.t, arr, lc))))
        return outs

    def ev_Tuple(self, node, st):
        return self.ev_items(node.elts, st, lambda items, s: MTuple(items))

    def ev_items(self, elts, st, fin):
        states = [(st, [])]
        for e in elts:
            new = []
            for s, acc_ in states:
                for s2, v in self.ev(e, s):
                    new.append((s2, acc_ + [v]))
            states = new
        return [(s, fin(items, s)) for s, items in states]

    def ev_List(self, node, st):
        if not node.elts:
            return [(st, Poly("List"))]

        def fin(items, s):
            et = self.infer(items[0])
            for x in items[1:]:
                et2 = self.infer(x)
                if et2 is not et:
                    et = REAL if {et, et2} <= {INT, REAL} else et
            for node_e, x in zip(node.elts, items):
                self.share_expr(node_e, s)
            return self.list_of([self.coerce(x, et, s) for x in items], List(et))
        return self.ev_items(node.elts, st, fin)

    def share_expr(self, node, st):
        """node's value is copied into another structure: forbid later in-place mutation through the original"""
        if isinstance(node, (ast.Name, ast.Attribute, ast.Subscript)):
            try:
                p = self.place(node, st)
            except Unsupported:
                p = None
            if p is not None and p[2] is not None and p[2].mutable:
                self.mark_shared(p, st)

    def ev_Dict(self, node, st):
        if not node.keys:
            return [(st, Poly("Dict"))]

        def fin(items, s):
            h = len(items) // 2
            ks, vs = items[:h], items[h:]
            if self.c.get("dict_literal") and all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in node.keys):
                t = ty.parse(self.c["dict_literal"])        # a record with values of different types
                kt, vt = t.args
            else:
                kt, vt = self.infer(ks[0]), self.infer(vs[0])
                t = T("Dict", (kt, vt))
            d = V(t, ty.empty(t))
            for k, v in zip(ks, vs):
                d = self.dict_set(d, self.coerce(k, kt, s).z, self.coerce(v, vt, s).z)
            return d
        return self.ev_items(list(node.keys) + list(node.values), st, fin)

    def ev_Set(self, node, st):
        def fin(items, s):
            t = T("Set", (self.infer(items[0]),))
            d = V(t, ty.empty(t))
            for k in items:
                d = self.set_add(d, self.coerce(k, t.args[0], s).z)
            return d
        return self.ev_items(node.elts, st, fin)

    def ev_Lambda(self, node, st):
        return [(st, Lam(node, self.frame))]

    def ev_IfExp(self, node, st):
        outs = []
        for s, c in self.ev(node.test, st):
            b = z3.simplify(self.truth(c, s))
            for val, br in ((True, node.body), (False, node.orelse)):
                cond = b if val else z3.Not(b)
                if z3.is_false(z3.simplify(cond)):
                    continue
                s2 = s.copy()
                s2.pc.append(cond)
                outs += self.ev(br, s2)
        # merge when both branches are pure scalars
        return outs

    def ev_BoolOp(self, node, st):
        # values may be non-boolean in Python; we only use them as booleans unless types agree
        isand = isinstance(node.op, ast.And)
        res = []
        cur = [st]
        for idx, e in enumerate(node.values):
            nxt = []
            for s in cur:
                for s2, v in self.ev(e, s):
                    tv = z3.simplify(self.truth(v, s2))
                    if idx == len(node.values) - 1:
                        res.append((s2, V(BOOL, tv) if not (isinstance(v, V) and v.t is BOOL) else v))
                        continue
                    stop = z3.Not(tv) if isand else tv
                    stop = z3.simplify(stop)
                    if not z3.is_false(stop):
                        sb = s2.copy()
                        sb.pc.append(stop)
                        res.append((sb, V(BOOL, z3.BoolVal(not isand))))
                    if not z3.is_true(stop):
                        sc = s2.copy()
                        sc.pc.append(z3.simplify(z3.Not(stop)))
                        nxt.append(sc)
            cur = nxt
        # merge if nothing but path conditions differ
        return self.merge_bools(node, st, res)

    def merge_bools(self, node, st, res):
        n0 = len(st.pc)
        ok = all(s.env == st.env and s.ghost == st.ghost for s, _ in res)
        if not ok or len(res) <= 1:
            return res
        # conjunction of branch conditions may include axioms of fresh symbols: keep them all (sound: each is guarded)
        z = z3.Or(*[z3.And(*(s.pc[n0:] + [v.z])) for s, v in res])
        conds = z3.Or(*[z3.And(*s.pc[n0:]) if s.pc[n0:] else z3.BoolVal(True) for s, v in res])
        if any(_has_quant(x) for s, _ in res for x in s.pc[n0:]):
            return res
        st.pc.append(z3.simplify(conds))
        return [(st, V(BOOL, z3.simplify(z)))]

    def ev_UnaryOp(self, node, st):
        outs = []
        for s, v in self.ev(node.operand, st):
            if isinstance(node.op, ast.Not):
                outs.append((s, V(BOOL, z3.simplify(z3.Not(self.truth(v, s))))))
            elif isinstance(node.op, ast.USub):
                outs.append((s, V(v.t, z3.simplify(-v.z))))
            else:
                raise Unsupported("unary op")
        return outs

    def ev_BinOp(self, node, st):
        outs = []
        for s, a in self.ev(node.left, st):
            for s2, b in self.ev(node.right, s):
                outs.append((s2, self.binop(node.op, a, b, s2, node)))
        return outs

    def binop(self, op, a, b, st, node, spec=False):
        if isinstance(a, V) and a.t.kind == "Opt":
            a = V(a.t.args[0], ty.unopt(a.t, a.z)) if spec else self.coerce(a, a.t.args[0], st)
        if isinstance(b, V) and b.t.kind == "Opt":
            b = V(b.t.args[0], ty.unopt(b.t, b.z)) if spec else self.coerce(b, b.t.args[0], st)
        from . import nd
        if nd.isnd(a) or nd.isnd(b):
            return nd.binop(self, op, a, b, st, node, spec)
        # list concatenation
        if isinstance(op, ast.Add) and (isinstance(a, (Seq, Poly)) or isinstance(a, V) and a.t.kind == "List"):
            return self.concat(a, b, st)
        if isinstance(op, ast.Mult) and isinstance(a, V) and a.t.kind == "List":
            return self.repeat(a, b, st)
        if isinstance(a, V) and isinstance(b, V) and (a.t is STR or b.t is STR):
            return V(STR, self.func("str_concat", [STR, STR], STR)(self.coerce(a, STR, st).z, self.coerce(b, STR, st).z))
        if isinstance(a, V) and a.t.kind == "Set" and isinstance(op, (ast.Sub, ast.BitOr, ast.BitAnd)):
            return self.set_op(op, a, b, st)
        if not (isinstance(a, V) and isinstance(b, V)):
            raise Unsupported("binary operation on meta values")
        num = (INT, REAL, BOOL)
        if a.t not in num or b.t not in num:
            raise Unsupported(f"binary operation on {a.t},{b.t}")
        if a.t is BOOL:
            a = self.coerce(a, INT, st)
        if b.t is BOOL:
            b = self.coerce(b, INT, st)
        if isinstance(op, ast.Div):
            a, b = self.coerce(a, REAL, st), self.coerce(b, REAL, st)
            if not spec:
                self.may_raise("ZeroDivisionError", b.z != 0, st, f"divisor is not zero: {ast.unparse(node)}", getattr(node, "lineno", None))
            if self.c.get("opaque_div") and not (z3.is_rational_value(z3.simplify(b.z)) or z3.is_int_value(z3.simplify(b.z))):
                return V(REAL, self.mul(a.z, z3.Function("recipR", z3.RealSort(), z3.RealSort())(b.z)))
            return V(REAL, a.z / b.z)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if a.t is not INT or b.t is not INT:
                raise Unsupported("real floor division")
            if not spec:
                self.may_raise("ZeroDivisionError", b.z != 0, st, f"divisor is not zero: {ast.unparse(node)}", getattr(node, "lineno", None))
            q = z3.If(b.z > 0, a.z / b.z, (-a.z) / (-b.z))
            if z3.is_int_value(b.z) and b.z.as_long() > 0:
                q = a.z / b.z
            if isinstance(op, ast.FloorDiv):
                return V(INT, q)
            if z3.is_int_value(b.z) and b.z.as_long() > 0:
                return V(INT, a.z % b.z)
            return V(INT, a.z - q * b.z)
        if a.t is REAL or b.t is REAL:
            a, b = self.coerce(a, REAL, st), self.coerce(b, REAL, st)
        if isinstance(op, ast.Add):
            return V(a.t, a.z + b.z)
        if isinstance(op, ast.Sub):
            return V(a.t, a.z - b.z)
        if isinstance(op, ast.Mult):
            return V(a.t, self.mul(a.z, b.z, st))
        if isinstance(op, ast.Pow) and z3.is_int_value(a.z) and z3.is_int_value(b.z):
            return V(INT, z3.IntVal(a.z.as_long() ** b.z.as_long()))
        raise Unsupported(f"operator {type(op).__name__}")

    def mul(self, a, b, st=None):
        isnum = lambda x: z3.is_int_value(x) or z3.is_rational_value(x)
        if not self.c.get("opaque_mul") or isnum(z3.simplify(a)) or isnum(z3.simplify(b)) or a.sort() != z3.RealSort():
            return a * b
        # product of two unknown reals: an uninterpreted function with the facts below (all true of multiplication)
        f = z3.Function("mulR", z3.RealSort(), z3.RealSort(), z3.RealSort())
        if str(a) > str(b) and (z3.is_const(b) or not z3.is_const(a)):
            a, b = b, a
        return f(a, b)

    def mul_axioms(self):
        if not self.c.get("opaque_mul"):
            return []
        f = z3.Function("mulR", z3.RealSort(), z3.RealSort(), z3.RealSort())
        a, b = z3.Reals("mx my")
        return [z3.ForAll([a], f(a, z3.RealVal(1)) == a), z3.ForAll([a], f(z3.RealVal(1), a) == a),
                z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, b >= 0), f(a, b) >= 0), patterns=[f(a, b)]),
                z3.ForAll([a, b], f(a, b) == f(b, a), patterns=[f(a, b)])] + self.div_axioms(f, a, b)

    def div_axioms(self, f, a, b):
        if not self.c.get("opaque_div"):
            return []
        r = z3.Function("recipR", z3.RealSort(), z3.RealSort())
        c = z3.Real("mz")
        return [z3.ForAll([a], z3.Implies(a > 0, z3.And(r(a) > 0, f(a, r(a)) == 1)), patterns=[r(a)]),
                z3.ForAll([a, b, c], f(a, f(b, r(c))) == f(f(a, r(c)), b), patterns=[f(a, f(b, r(c)))])]

    def concat(self, a, b, st):
        if isinstance(a, Poly):
            return self.mat(b, st) if not isinstance(b, Poly) else a
        a = self.mat(a, st)
        b = self.coerce(b, a.t, st)
        t = a.t
        la, lb = ty.l_len(t, a.z), ty.l_len(t, b.z)
        if z3.is_int_value(lb) and lb.as_long() <= 3:
            arr = ty.l_arr(t, a.z)
            for i in range(lb.as_long()):
                arr = z3.Store(arr, la + i, z3.Select(ty.l_arr(t, b.z), i))
            return V(t, ty.mk(t, arr, la + lb))
        arr = ty.fresh("cat", z3.ArraySort(z3.IntSort(), ty.sort(t.args[0])))
        i = ty.fresh("i", z3.IntSort())
        st.pc.append(ty.forall([i], z3.Implies(z3.And(0 <= i, i < la + lb),
                                               z3.Select(arr, i) == z3.If(i < la, z3.Select(ty.l_arr(t, a.z), i), z3.Select(ty.l_arr(t, b.z), i - la))),
                               [z3.Select(arr, i)]))
        # also forward triggers
        j = ty.fresh("j", z3.IntSort())
        sb = z3.Select(ty.l_arr(t, b.z), j)
        if _patternable(sb):
            st.pc.append(ty.forall([j], z3.Implies(z3.And(0 <= j, j < lb), z3.Select(arr, la + j) == sb), [sb]))
        sa = z3.Select(ty.l_arr(t, a.z), j)
        if _patternable(sa):
            st.pc.append(ty.forall([j], z3.Implies(z3.And(0 <= j, j < la), z3.Select(arr, j) == sa), [sa]))
        self.lib.ahist[arr.get_id()] = ("concat", arr, ty.l_arr(t, a.z), la, ty.l_arr(t, b.z), lb)
        return V(t, ty.mk(t, arr, la + lb))

    def repeat(self, a, b, st):
        t = a.t
        n = self.coerce(b, INT, st).z
        la = ty.l_len(t, a.z)
        arr = ty.fresh("rep", z3.ArraySort(z3.IntSort(), ty.sort(t.args[0])))
        ln = ty.fresh("replen", z3.IntSort())
        i = ty.fresh("i", z3.IntSort())
        st.pc.append(ln == z3.If(n > 0, la * n, z3.IntVal(0)))
        st.pc.append(ty.forall([i], z3.Implies(z3.And(0 <= i, i < ln), z3.Select(arr, i) == z3.Select(ty.l_arr(t, a.z), i % la)), [z3.Select(arr, i)]))
        return V(t, ty.mk(t, arr, ln))

    def set_op(self, op, a, b, st):
        b = self.to_set(b, st)
        t = a.t
        new = ty.fresh("setop", ty.sort(t))
        k = ty.fresh("k", ty.sort(t.args[0]))
        da, db, dn = (z3.Select(ty.d_dom(t, x), k) for x in (a.z, b.z, new))
        e = z3.And(da, z3.Not(db)) if isinstance(op, ast.Sub) else (z3.Or(da, db) if isinstance(op, ast.BitOr) else z3.And(da, db))
        st.pc.append(ty.forall([k], dn == e, [dn]))
        pats = [x for x in (da, db) if _patternable(x)]
        for x in pats:
            st.pc.append(ty.forall([k], dn == e, [x]))
        st.pc.extend(ty.wf(t, new))
        return V(t, new)

    def to_set(self, v, st):
        if isinstance(v, V) and v.t.kind == "Set":
            return v
        if isinstance(v, V) and v.t.kind == "Opt":
            v = self.coerce(v, v.t.args[0], st)
        s = self.seq_of(v, st)
        et = s.et
        t = T("Set", (et,))
        new = ty.fresh("set", ty.sort(t))
        k = ty.fresh("k", ty.sort(et))
        i = ty.fresh("i", z3.IntSort())
        dom = ty.d_dom(t, new)
        src = s.src
        if src is not None and (src.t.isdict or src.t.kind == "Set") and src.t.args[0] is et:
            # keys of a dictionary
            st.pc.append(dom == ty.d_dom(src.t, src.z))
            st.pc.append(ty.d_n(t, new) == ty.d_n(src.t, src.z))
            st.pc.extend(ty.wf(t, new))
            return V(t, new)
        l = self.seq_to_list(s, st)
        arr, n = ty.l_arr(l.t, l.z), ty.l_len(l.t, l.z)
        w = ty.fresh("wit", z3.ArraySort(ty.sort(et), z3.IntSort()))
        st.pc.append(ty.forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(dom, z3.Select(arr, i))), [z3.Select(arr, i)]))
        st.pc.append(ty.forall([k], z3.Implies(z3.Select(dom, k), z3.And(0 <= z3.Select(w, k), z3.Select(w, k) < n,
                                                                         z3.Select(arr, z3.Select(w, k)) == k)), [z3.Select(dom, k)]))
        if arr.get_id() in self.comp_elem:      # the same fact, stated over the elements the comprehension is built from
            ci, ce, _ = self.comp_elem[arr.get_id()]
            pats = []
            todo = [ce]
            while todo:
                x = todo.pop()
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and x.arg(1).eq(ci) and _patternable(x):
                    pats.append(x)
                elif z3.is_app(x):
                    todo.extend(x.children())
            if pats:
                st.pc.append(ty.forall([ci], z3.Implies(z3.And(0 <= ci, ci < n), z3.Select(dom, ce)), pats[:1]))
        st.pc.extend(ty.wf(t, new))
        # cardinality facts used by `len(set(x)) == 1` and emptiness
        st.pc.append((ty.d_n(t, new) == 0) == (n == 0))
        st.pc.append(ty.d_n(t, new) <= n)
        allsame = ty.forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(arr, i) == z3.Select(arr, 0)))
        st.pc.append(z3.Implies(z3.And(n > 0, allsame), ty.d_n(t, new) == 1))
        st.pc.append(z3.Implies(ty.d_n(t, new) == 1, ty.forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(arr, i) == z3.Select(arr, 0)), [z3.Select(arr, i)])))
        return V(t, new)

    def ev_Compare(self, node, st):
        items = [node.left] + node.comparators
        outs = []
        from . import nd
        for s, vals in self.ev_items(items, st, lambda items, s: items):
            if len(node.ops) == 1 and (nd.isnd(vals[0]) or nd.isnd(vals[1])) and not isinstance(node.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
                outs.append((s, nd.compare(self, node.ops[0], vals[0], vals[1], s, node)))
                continue
            z = []
            for i, op in enumerate(node.ops):
                z.append(self.compare(op, vals[i], vals[i + 1], s, node))
            outs.append((s, V(BOOL, z3.simplify(z3.And(*z)) if len(z) > 1 else z3.simplify(z[0]))))
        return outs

    def compare(self, op, a, b, st, node=None):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(b, V) and b.t is NONE:
                if isinstance(a, V) and a.t.kind == "Opt":
                    r = ty.is_none(a.t, a.z)
                elif isinstance(a, V) and a.t is NONE:
                    r = z3.BoolVal(True)
                else:
                    r = z3.BoolVal(False)
            else:
                if isinstance(a, V) and isinstance(b, V) and a.t is b.t and a.t.kind in ("Bool", "U"):
                    r = a.z == b.z
                elif isinstance(a, V) and isinstance(b, Py):
                    r = self.func(f"is_{b.name.replace('.', '_')}", [a.t], BOOL)(a.z)
                else:
                    raise Unsupported("is")
            return z3.Not(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st)
            return z3.Not(r) if isinstance(op, ast.NotIn) else r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b, st)
            return z3.Not(r) if isinstance(op, ast.NotEq) else r
        a, b = self.num(a, st), self.num(b, st)
        if a.t.kind == "Tuple" and b.t.kind == "Tuple":
            raise Unsupported("tuple ordering")
        if a.t.kind in ("Str", "U"):
            lt = self.lib.lt(self, a.t)
            if isinstance(op, ast.Lt):
                return lt(a.z, b.z)
            if isinstance(op, ast.Gt):
                return lt(b.z, a.z)
            raise Unsupported("ordering of uninterpreted values")
        if a.t.kind == "Set":
            k = ty.fresh("k", ty.sort(a.t.args[0]))
            sub = lambda x, y: ty.forall([k], z3.Implies(z3.Select(ty.d_dom(a.t, x), k), z3.Select(ty.d_dom(a.t, y), k)))
            b = self.to_set(b, st)
            if isinstance(op, ast.LtE):
                return sub(a.z, b.z)
            raise Unsupported("set comparison")
        if REAL in (a.t, b.t):
            a, b = self.coerce(a, REAL, st), self.coerce(b, REAL, st)
        return {ast.Lt: lambda: a.z < b.z, ast.LtE: lambda: a.z <= b.z, ast.Gt: lambda: a.z > b.z, ast.GtE: lambda: a.z >= b.z}[type(op)]()

    def num(self, v, st):
        v = self.mat(v, st)
        if v.t.kind == "Opt":
            v = self.coerce(v, v.t.args[0], st)
        if v.t is BOOL:
            v = self.coerce(v, INT, st)
        return v

    def equal(self, a, b, st):
        if isinstance(a, Py) or isinstance(b, Py):
            raise Unsupported("equality with a module-level name")
        if isinstance(a, MTuple) and isinstance(b, MTuple):
            return z3.And(*[self.equal(x, y, st) for x, y in zip(a.items, b.items)]) if len(a.items) == len(b.items) else z3.BoolVal(False)
        if isinstance(a, Seq) and isinstance(b, (Seq, V)):       # dict views compare as sets
            if a.src is not None and a.src.t.isdict:
                sa, sb = self.to_set(a, st), self.to_set(b, st)
                return ty.eq(sa.t, sa.z, sb.z)
        if isinstance(b, Seq) and isinstance(a, V) and a.t.kind == "Set":
            sb = self.to_set(b, st)
            return ty.eq(a.t, a.z, sb.z)
        if isinstance(a, Poly):
            a, b = b, a
        if isinstance(b, Poly):
            return z3.Not(self.truth(a, st))
        a, b = self.mat(a, st), self.mat(b, st)
        if a.t is not b.t:
            if a.t.kind == "Opt" or b.t.kind == "Opt":
                if a.t.kind != "Opt":
                    a, b = b, a
                if b.t is NONE:
                    return ty.is_none(a.t, a.z)
                inner = a.t.args[0]
                if b.t.kind == "Opt":
                    raise Unsupported("comparing optionals of different types")
                return z3.And(z3.Not(ty.is_none(a.t, a.z)), self.equal(V(inner, ty.unopt(a.t, a.z)), b, st))
            if {a.t, b.t} <= {INT, REAL, BOOL}:
                t = REAL if REAL in (a.t, b.t) else INT
                a, b = self.coerce(a, t, st), self.coerce(b, t, st)
            elif NONE in (a.t, b.t):
                return z3.BoolVal(False)
            elif a.t.isdict and b.t.isdict or a.t.kind == "Tuple" or a.t.kind == "List":
                b = self.coerce(b, a.t, st)
            else:
                raise Unsupported(f"comparing {a.t} and {b.t}")
        if a.t.kind == "U" and a.t.name in self.lib.custom_eq:
            return self.lib.custom_eq[a.t.name](self, st, a, b)
        return ty.eq(a.t, a.z, b.z)

    def contains(self, a, b, st):
        if isinstance(b, MTuple):
            return z3.Or(*[self.equal(a, x, st) for x in b.items])
        if isinstance(b, Poly):
            return z3.BoolVal(False)
        if isinstance(b, Seq) and b.src is not None and (b.src.t.isdict or b.src.t.kind == "Set") and b.et is b.src.t.args[0]:
            b = b.src
        b = self.mat(b, st)
        if b.t.kind == "Opt":
            b = self.coerce(b, b.t.args[0], st)
        if b.t.isdict or b.t.kind == "Set":
            return z3.Select(ty.d_dom(b.t, b.z), self.coerce(a, b.t.args[0], st).z)
        if b.t.kind == "List":
            i = ty.fresh("i", z3.IntSort())
            a = self.coerce(a, b.t.args[0], st)
            return z3.Exists([i], z3.And(0 <= i, i < ty.l_len(b.t, b.z), ty.eq(a.t, z3.Select(ty.l_arr(b.t, b.z), i), a.z)))
        if b.t is STR:
            return self.func("str_contains", [STR, STR], BOOL)(b.z, self.coerce(a, STR, st).z)
        raise Unsupported("in")

    def ev_NamedExpr(self, node, st):
        outs = []
        for s, v in self.ev(node.value, st):
            self.assign(node.target, v, s, node.value)
            outs.append((s, v))
        return outs

    def ev_Await(self, node, st):
        return self.ev(node.value, st)

    def ev_Starred(self, node, st):
        raise Unsupported("starred")

    # --- comprehensions
    def comp_bind(self, gens, st, k):
        """bind the generators of a comprehension generically; returns list of (i, cond, n) and calls k(substate)"""
        raise NotImplementedError

    def comp_seq(self, gen, st):
        p = None
        it = self.iter_view(gen.iter, st)
        return it

    def comp_frame(self, st):
        return st

    def ev_ListComp(self, node, st):
        if len(node.generators) == 1:
            return [(st, self.list_comp(node.elt, node.generators[0], st))]
        if len(node.generators) == 2 and not any(g.ifs for g in node.generators):
            return [(st, self.flat_comp(node, st))]
        raise Unsupported("list comprehension with several generators")

    def flat_comp(self, node, st):
        """[x for l in L for x in l]: the concatenation of the lists of L; the elements of L[m] begin at the sum of the lengths before it"""
        g0, g1 = node.generators
        if not (isinstance(g0.target, ast.Name) and isinstance(g1.iter, ast.Name) and g1.iter.id == g0.target.id and isinstance(g1.target, ast.Name)
                and isinstance(node.elt, ast.Name) and node.elt.id == g1.target.id and g0.target.id != g1.target.id):
            raise Unsupported("nested list comprehension")
        sq = self.comp_seq(g0, st)
        if sq.lazy_iter is not None:
            raise Unsupported("nested list comprehension over an iterator")
        x = self.seq_to_list(sq, st)
        lt = x.t.args[0]
        if lt.kind != "List":
            raise Unsupported("nested list comprehension")
        sf = next((f for f in self.lib.sums.values() if f.name.startswith("flat_") and f.et is lt and not f.pt), None)
        if sf is None:
            raise Unsupported(f"no length sum for {lt}")
        arr, n = ty.l_arr(x.t, x.z), ty.l_len(x.t, x.z)
        out = self.fresh_value("flat", lt, st)
        fa, fn_ = ty.l_arr(lt, out.z), ty.l_len(lt, out.z)
        m, j = (ty.fresh(q, z3.IntSort()) for q in "mj")
        S = lambda q: sf.fn()(arr, q)
        xm = z3.Select(arr, m)
        el = z3.Select(ty.l_arr(lt, xm), j)
        inm = z3.And(0 <= m, m < n)
        st.pc.append(fn_ == S(n))
        st.pc.append(ty.forall([m], z3.Implies(inm, z3.And(S(m) >= 0, S(m) + ty.l_len(lt, xm) <= fn_)), [xm]))
        st.pc.append(ty.forall([m, j], z3.Implies(z3.And(inm, 0 <= j, j < ty.l_len(lt, xm)), z3.Select(fa, S(m) + j) == el), [el]))
        return out

    def ev_GeneratorExp(self, node, st):
        return [(st, GenExp(node, self.frame))]

    def with_binding(self, gen, seq, i, st):
        sub = st.copy()
        self.quiet_names = getattr(self, "quiet_names", 0)
        v = seq.get(i, sub)
        self.bind_target(gen.target, v, sub, seq.elem_place(i) if seq.elem_place else None)
        return sub

    def list_comp(self, elt, gen, st):
        seq = self.comp_seq(gen, st)
        i = ty.fresh("i", z3.IntSort())
        sub = self.with_binding(gen, seq, i, st)
        base = len(sub.pc)
        sub.pc.insert(len(st.pc), z3.And(0 <= i, i < seq.n))
        if seq.lazy_iter is not None:
            self.consume_all(seq, st)
        w = set()
        self.writes.append(w)
        if not gen.ifs:
            outs = self.ev(elt, sub)
            self.writes.pop()
            if w - {k for k in w if k not in st.env}:
                raise Unsupported("comprehension with side effects on " + str(w))
            vals = self.fold_ite(outs, sub)
            if vals is None:
                raise Unsupported("branching comprehension element")
            s2, e = vals
            e = self.mat(e, s2)
            et = e.t
            arr = ty.fresh("comp", z3.ArraySort(z3.IntSort(), ty.sort(et)))
            side = s2.pc[len(st.pc) + 1:]
            body, consts = self.close_over(side, i, z3.Select(arr, i) == e.z)
            lt = List(et)
            if not side:
                self.comp_elem[arr.get_id()] = (i, e.z, arr)
            st.pc.append(ty.forall([i], z3.Implies(z3.And(0 <= i, i < seq.n), body), [z3.Select(arr, i)]))
            n = seq.n
            if not _nonneg(n):
                self_n = ty.fresh("n", z3.IntSort())
                st.pc.append(self_n == z3.If(n > 0, n, z3.IntVal(0)))
                n = self_n
            return V(lt, ty.mk(lt, arr, n))
        # filtered
        conds = []
        s2 = sub
        for c in gen.ifs:
            outs = self.ev(c, s2)
            if len(outs) != 1:
                raise Unsupported("branching filter")
            s2, cv = outs[0]
            cz = self.truth(cv, s2)
            conds.append(cz)
        cond = z3.And(*conds)
        s3 = s2.copy()
        s3.pc.append(cond)
        outs = self.ev(elt, s3)
        self.writes.pop()
        vals = self.fold_ite(outs, s3)
        if vals is None or w - {k for k in w if k not in st.env}:
            raise Unsupported("branching comprehension element")
        s4, e = vals
        e = self.mat(e, s4)
        et = e.t
        lt = List(et)
        side = [x for x in s4.pc[len(st.pc) + 1:] if not x.eq(cond)]
        arr = ty.fresh("comp", z3.ArraySort(z3.IntSort(), ty.sort(et)))
        m = ty.fresh("pos", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        inv = ty.fresh("inv", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        ln = ty.fresh("n", z3.IntSort())
        j, j2 = ty.fresh("j", z3.IntSort()), ty.fresh("j", z3.IntSort())
        sb = lambda x, to: z3.substitute(x, (i, to))
        mj = z3.Select(m, j)
        st.pc.append(z3.And(ln >= 0, ln <= z3.If(seq.n > 0, seq.n, 0)))
        st.pc.append(ty.forall([j], z3.Implies(z3.And(0 <= j, j < ln), z3.And(0 <= mj, mj < seq.n, sb(cond, mj), *[sb(x, mj) for x in side],
                                                                         z3.Select(arr, j) == sb(e.z, mj), z3.Select(inv, mj) == j)), [z3.Select(arr, j)]))
        st.pc.append(ty.forall([j], z3.Implies(z3.And(0 <= j, j < ln), z3.And(0 <= mj, mj < seq.n, sb(cond, mj), *[sb(x, mj) for x in side],
                                                                         z3.Select(arr, j) == sb(e.z, mj), z3.Select(inv, mj) == j)), [mj]))
        ii = z3.Select(inv, i)
        pat = [x for x in [_find_pat(e.z, i), _find_pat(cond, i)] if x is not None]
        st.pc.append(ty.forall([i], z3.Implies(z3.And(0 <= i, i < seq.n, *side, cond), z3.And(0 <= ii, ii < ln, z3.Select(m, ii) == i, z3.Select(arr, ii) == e.z)), pat[:1]))
        st.pc.append(ty.forall([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < ln), z3.Select(m, j) < z3.Select(m, j2)),
                               [z3.MultiPattern(z3.Select(m, j), z3.Select(m, j2))]))
        return V(lt, ty.mk(lt, arr, ln))

    def close_over(self, side, i, body):
        """side facts about symbols introduced for a generic index i become functions of i"""
        consts = {}
        names = set()
        for x in side + [body]:
            _collect_fresh(x, names)
        if side:
            # skolem-functionalise fresh constants created after i
            inum = int(str(i).split("!")[-1])
            subs = []
            for c in names:
                num = int(str(c).split("!")[-1])
                if num > inum and not c.eq(i) and not (c.sort().kind() == z3.Z3_ARRAY_SORT and str(c).startswith("comp!") and z3.is_true(z3.BoolVal(False))):
                    subs.append(c)
            pairs = []
            tgt = None
            for c in subs:
                if z3.is_eq(body) and _is_sel_of(body.arg(0), c, i):
                    continue
                arrc = ty.fresh(str(c).split("!")[0] + "_of", z3.ArraySort(z3.IntSort(), c.sort()))
                pairs.append((c, z3.Select(arrc, i)))
            if pairs:
                side = [z3.substitute(x, *pairs) for x in side]
                body = z3.substitute(body, *pairs)
            return z3.And(*side, body), pairs
        return body, []

    def fold_ite(self, outs, sub):
        """merge pure branches of an element expression into an if-then-else"""
        if len(outs) == 1:
            return outs[0]
        if not outs:
            return None
        n0 = None
        base = outs[0][0]
        common = 0
        m = min(len(s.pc) for s, _ in outs)
        while common < m and all(s.pc[common].eq(base.pc[common]) for s, _ in outs):
            common += 1
        try:
            vs = [self.mat(v, s) for s, v in outs]
        except Unsupported:
            return None
        t = vs[0].t
        if any(v.t is not t for v in vs):
            if all(v.t in (INT, REAL) for v in vs):
                vs = [self.coerce(v, REAL, s) for v, (s, _) in zip(vs, outs)]
                t = REAL
            else:
                return None
        z = vs[-1].z
        for (s, _), v in list(zip(outs, vs))[:-1][::-1]:
            z = z3.If(z3.And(*s.pc[common:]), v.z, z)
        st = outs[0][0].copy()
        st.pc = st.pc[:common]
        return (st, V(t, z))

    def ev_DictComp(self, node, st):
        if len(node.generators) != 1:
            raise Unsupported("dict comprehension")
        gen = node.generators[0]
        seq = self.comp_seq(gen, st)
        src = seq.src
        i = ty.fresh("i", z3.IntSort())
        sub = self.with_binding(gen, seq, i, st)
        sub.pc.insert(len(st.pc), z3.And(0 <= i, i < seq.n))
        conds = []
        s2 = sub
        for c in gen.ifs:
            s2, cv = self.ev(c, s2)[0]
            conds.append(self.truth(cv, s2))
        cond = z3.And(*conds) if conds else z3.BoolVal(True)
        s2.pc.append(cond)
        (s3, kv), = self.ev(node.key, s2)
        kv = self.mat(kv, s3)
        r = self.fold_ite(self.ev(node.value, s3), s3)
        if r is None:
            raise Unsupported("branching dict comprehension value")
        s4, vv = r
        vv = self.mat(vv, s4)
        side = [x for x in s4.pc[len(st.pc) + 1:] if not x.eq(cond)]
        t = T("Dict", (kv.t, vv.t))
        same_keys = src is not None and src.t.isdict and z3.simplify(kv.z).eq(z3.simplify(z3.Select(ty.d_keys(src.t, src.z), i)))
        if same_keys and not conds:
            skeys, sidx_a, sdom = ty.d_keys(src.t, src.z), ty.d_idx(src.t, src.z), ty.d_dom(src.t, src.z)
            val = ty.fresh("dcval", z3.ArraySort(ty.sort(kv.t), ty.sort(vv.t)))
            body, _ = self.close_over(side, i, z3.Select(val, z3.Select(skeys, i)) == vv.z)
            # one equation per key k, at its index idx[k] (keys[idx[k]] == k)
            kk = ty.fresh("k", ty.sort(kv.t))
            sidx = z3.Select(sidx_a, kk)
            b2 = z3.substitute(body, (z3.Select(skeys, i), kk))
            b2 = z3.substitute(b2, (i, sidx))
            b2 = z3.substitute(b2, (z3.Select(skeys, sidx), kk))
            st.pc.append(ty.forall([kk], z3.Implies(z3.Select(sdom, kk), b2), [z3.Select(val, kk)]))
            if ty.needs_wf(vv.t):
                st.pc.append(ty.forall([kk], z3.Implies(z3.Select(sdom, kk), z3.And(*ty.wf(vv.t, z3.Select(val, kk)))), [z3.Select(val, kk)]))
            return [(st, V(t, ty.mk(t, skeys, seq.n, sdom, val, sidx_a)))]
        new = ty.fresh("dcomp", ty.sort(t))
        dom, val, keys, n = ty.d_dom(t, new), ty.d_val(t, new), ty.d_keys(t, new), ty.d_n(t, new)
        st.pc.extend(ty.wf(t, new))
        # general: last occurrence wins; last[k] is the index of the winning element
        last = ty.fresh("last", z3.ArraySort(ty.sort(kv.t), z3.IntSort()))
        k = ty.fresh("k", ty.sort(kv.t))
        lk = z3.Select(last, k)
        body, prs = self.close_over(side, i, z3.And(kv.z == kv.z, z3.BoolVal(True)))
        sub_i = lambda x, to: z3.substitute(x, (i, to))
        kz, vz, cz = kv.z, vv.z, cond
        if prs:
            kz, vz, cz = (z3.substitute(x, *prs) for x in (kz, vz, cz))
            side = [z3.substitute(x, *prs) for x in side]
        for x in side:
            st.pc.append(ty.forall([i], z3.Implies(z3.And(0 <= i, i < seq.n, cz), x)))
        st.pc.append(ty.forall([k], z3.Implies(z3.Select(dom, k), z3.And(0 <= lk, lk < seq.n, sub_i(cz, lk), sub_i(kz, lk) == k,
                                                                    z3.Select(val, k) == sub_i(vz, lk))), [z3.Select(dom, k)]))
        st.pc.append(ty.forall([k], z3.Implies(z3.Select(dom, k), z3.And(0 <= lk, lk < seq.n, sub_i(cz, lk), sub_i(kz, lk) == k,
                                                                    z3.Select(val, k) == sub_i(vz, lk))), [z3.Select(val, k)]))
        pat = _find_pat(kz, i)
        st.pc.append(ty.forall([i], z3.Implies(z3.And(0 <= i, i < seq.n, cz), z3.And(z3.Select(dom, kz), z3.Select(last, kz) >= i)), [pat] if pat is not None else []))
        return [(st, V(t, new))]

    def ev_SetComp(self, node, st):
        l = self.list_comp(node.elt, node.generators[0], st)
        return [(st, self.to_set(l, st))]

    def consume_all(self, seq, st):
        root, path, t = seq.lazy_iter
        cur = self.read_path(root, path, st)
        self.write_path(root, path, V(t, ty.mk(t, ty.it_arr(t, cur.z), ty.it_n(t, cur.z), ty.it_n(t, cur.z))), st, replace=False)

    # --- iteration views of expressions
    def iter_view(self, node, st):
        """Seq for the iterable expression node"""
        if isinstance(node, ast.Call):
            fn = node.func
            if isinstance(fn, ast.Attribute) and fn.attr in ("items", "keys", "values") and not node.args:
                p = self.place(fn.value, st)
                if p is not None and p[2] is not None:
                    self.check_place_read(fn.value, st)
                    base = self.read_path(p[0], p[1], st)
                    if base.t.kind == "Opt":
                        base = self.coerce(base, base.t.args[0], st)
                    if base.t.isdict:
                        return self.dict_view(base, fn.attr, st, (p[0], p[1], base.t))
                v = self.mat(self.ev1(fn.value, st), st)
                if v.t.isdict:
                    return self.dict_view(v, fn.attr, st)
        p = None
        if isinstance(node, (ast.Name, ast.Attribute, ast.Subscript)):
            try:
                p = self.place(node, st)
            except Unsupported:
                p = None
        v = self.ev1(node, st)
        return self.seq_of(v, st, p)

    # ------------------------------------------------------------------ calls
    def ev_Call(self, node, st):
        return self.lib.call(self, node, st)

    def find_method(self, name):
        mod, owner = self.frame_info[self.frame]
        if owner is None:
            return None
        r = self.lib.loader.method_of(mod, owner, name)
        return r[0] if r else None

    def find_method_full(self, name):
        mod, owner = self.frame_info[self.frame]
        return self.lib.loader.method_of(mod, owner, name) if owner is not None else None

    def find_function(self, name):
        mod, _ = self.frame_info[self.frame]
        # nested function of the current function
        for n in ast.walk(self.fn):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not self.fn and n.name == name:
                return n
        for s in mod.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and s.name == name:
                return s
        return None

    def inline_call(self, f, args, kwargs, st, node, argnodes=None, owner=None, mod=None):
        """execute the callee's body in place (helpers without a contract)"""
        if self.call_depth > 6:
            raise Unsupported("inlining too deep (recursion?)")
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(f)) and not getattr(self, "_yf", False):
            raise Unsupported(f"call of generator {f.name}")
        self.inlined.add(f.name)
        self.inlined_nodes.append(f)
        self.frame_no += 1
        fr = str(self.frame_no)
        m0, o0 = self.frame_info[self.frame]
        self.frame_info[fr] = (mod or m0, owner if owner is not None else o0)
        names = [a.arg for a in f.args.posonlyargs + f.args.args]
        if f.args.vararg or f.args.kwarg:
            raise Unsupported("varargs")
        st = st.copy()
        bound = {}
        for n, v in zip(names, args):
            bound[n] = v
        for k, v in kwargs.items():
            bound[k] = v
        defaults = f.args.defaults
        for n, d in zip(names[len(names) - len(defaults):], defaults):
            if n not in bound:
                bound[n] = self.ev1(d, st)
        for a, d in zip(f.args.kwonlyargs, f.args.kw_defaults):
            if a.arg not in bound and d is not None:
                bound[a.arg] = self.ev1(d, st)
        for n in names + [a.arg for a in f.args.kwonlyargs]:
            if n not in bound:
                raise Unsupported(f"missing argument {n} of {f.name}")
        nested = any(n is f for n in ast.walk(self.fn)) and f is not self.fn
        for n, v in bound.items():
            if isinstance(v, Py) and v.name in ("self", "cls"):
                continue
            st.env[f"{fr}:{n}"] = v
        if nested:
            for k, v in list(st.env.items()):
                if k.startswith(self.frame + ":") and f"{fr}:{k.split(':', 1)[1]}" not in st.env:
                    st.env[f"{fr}:{k.split(':', 1)[1]}"] = Alias(k, [], v.t) if isinstance(v, V) else v
        self.frames.append(fr)
        self.call_depth += 1
        outs = []
        try:
            for kind, s, pay in self.block(f.body, st):
                if kind == "normal":
                    outs.append((s, self.const(None)))
                elif kind == "return":
                    outs.append((s, pay))
                elif kind == "raise":
                    self.sinks[-1].append((kind, s, pay))
                else:
                    raise Unsupported("control flow leaves helper")
        finally:
            self.frames.pop()
            self.call_depth -= 1
        # drop the callee's locals
        res = []
        for s, v in outs:
            s = s.copy()
            for k in [k for k in s.env if k.startswith(fr + ":")]:
                s.env.pop(k)
            for k, b in s.env.items():
                if isinstance(b, Alias) and b.root.startswith(fr + ":"):
                    raise Unsupported("alias to a local of an inlined helper")
            res.append((s, v))
        return res

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        states = [st]
        done = []
        for s in stmts:
            nxt = []
            for cur in states:
                for kind, s2, pay in self.stmt(s, cur):
                    if kind == "normal":
                        nxt.append(s2)
                    else:
                        done.append((kind, s2, pay))
            states = nxt
            if len(states) > self.c.get("max_paths", 400):
                raise Unsupported("too many paths")
        return done + [("normal", s, None) for s in states]

    def stmt(self, node, st):
        m = getattr(self, "st_" + type(node).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(node).__name__}")
        sink = []
        self.sinks.append(sink)
        try:
            outs = m(node, st.copy())
        finally:
            self.sinks.pop()
        return sink + outs

    def st_Expr(self, node, st):
        v = node.value
        if isinstance(v, ast.Constant):
            return [("normal", st, None)]
        if isinstance(v, ast.Call):
            dn = dotted(v.func) or ""
            if dn.startswith(LOG_PREFIX):
                return [("normal", st, None)]
        return [("normal", s, None) for s, _ in self.ev(v, st)]

    def st_Pass(self, node, st):
        return [("normal", st, None)]

    def st_Global(self, node, st):
        raise Unsupported("global")

    def st_Import(self, node, st):
        return [("normal", st, None)]
    st_ImportFrom = st_Import

    def st_FunctionDef(self, node, st):
        return [("normal", st, None)]   # nested helper, inlined at calls

    def st_Delete(self, node, st):
        for t in node.targets:
            if isinstance(t, ast.Name):
                k = self.lookup(t.id, st)
                if k:
                    st.env.pop(k)
                continue
            if isinstance(t, ast.Subscript):
                self.check_place_read_base(t, st)
                p = self.place(t.value, st)
                if p is None:
                    raise Unsupported("del")
                cur = self.read_path(p[0], p[1], st)
                if cur.t.isdict:
                    k = self.coerce(self.ev1(t.slice, st), cur.t.args[0], st).z
                    self.may_raise("KeyError", z3.Select(ty.d_dom(cur.t, cur.z), k), st, f"key present: del {ast.unparse(t)}", node.lineno)
                    self.write_path(p[0], p[1], self.dict_del(cur, k, st), st, replace=False)
                    self.break_aliases(p[0], p[1] + [("k", k)], st)
                    continue
            raise Unsupported("del")
        return [("normal", st, None)]

    def check_place_read_base(self, sub, st):
        self.check_place_read(sub.value, st)

    def st_Assign(self, node, st):
        outs = []
        # alias binding: x = <place of a mutable container>
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and isinstance(node.value, (ast.Name, ast.Attribute, ast.Subscript)):
            p = self.place_for_alias(node.value, st)
            if p is not None:
                self.bind_name(node.targets[0].id, Alias(p[0], p[1], p[2]), st)
                return [("normal", st, None)]
        for s, v in self.ev(node.value, st):
            for tgt in node.targets:
                self.assign(tgt, v, s, node.value)
            outs.append(("normal", s, None))
        return outs

    def place_for_alias(self, node, st):
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            return None
        try:
            p = self.place(node, st)
        except Unsupported:
            return None
        if p is None or p[2] is None or not p[2].mutable:
            return None
        self.check_place_read(node, st)
        return self.place(node, st)

    def st_AnnAssign(self, node, st):
        if node.value is None:
            return [("normal", st, None)]
        return self.st_Assign(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node), st)

    def local_type(self, name):
        return self.c.get("locals", {}).get(name)

    def bind_name(self, name, v, st):
        k = self.q(name)
        self.record_write(k)
        lt = self.local_type(name)
        old = st.env.get(k)
        if self.frame == self.frame0 and name in self.param_names and f"par:{name}" not in st.env and isinstance(old, (V, Alias)):
            # the contract's name keeps denoting the caller's object
            st.env[f"par:{name}"] = self.read_path(old.root, old.path, st) if isinstance(old, Alias) else old
        if isinstance(old, V) and old.t.mutable:
            # rebinding a name: other names may alias the old object; they must be re-rooted
            for n, b in list(st.env.items()):
                if isinstance(b, Alias) and b.root == k and n != k:
                    st.env[n] = Alias("!broken", [], b.t)
        st.shared = [(r, p) for r, p in st.shared if r != k]
        if isinstance(v, Alias):
            if v.root == k:
                raise Unsupported("self alias")
            st.env[k] = v
            return
        if lt is not None and not isinstance(v, (Lam, Py, GenExp)):
            v = self.coerce(v, ty.parse(lt), st)
        elif isinstance(old, V) and isinstance(v, V) and old.t.kind == "Opt" and v.t.kind != "Opt" and old.t.args[0] is v.t:
            pass
        if isinstance(v, (Seq,)) or type(v).__name__ == "NdSeq":
            v = self.mat(v, st)
        if isinstance(v, V):
            v = self.named(v, st, name)
        st.env[k] = v

    def assign(self, tgt, v, st, srcnode=None):
        if isinstance(tgt, ast.Name):
            self.bind_name(tgt.id, v, st)
            return
        if isinstance(tgt, (ast.Tuple, ast.List)):
            self.unpack(tgt, v, st)
            return
        if isinstance(tgt, ast.Attribute):
            p = self.place(tgt, st)
            if p is None:
                dn = dotted(tgt)
                if dn and dn.startswith("self.") and dn.count(".") == 1:
                    st.env["fld:" + dn] = self.mat(v, st)
                    self.record_write("fld:" + dn)
                    return
                raise Unsupported(f"assignment to {ast.unparse(tgt)}")
            self.write_path(p[0], p[1], v, st)
            self.after_store(p, srcnode, st)
            return
        if isinstance(tgt, ast.Subscript):
            self.check_place_read(tgt.value, st)
            base = self.place(tgt.value, st)
            if base is None or base[2] is None:
                raise Unsupported(f"assignment to {ast.unparse(tgt)}")
            cur = self.read_path(base[0], base[1], st)
            if cur.t.kind == "Opt":
                self.emit("value is not None", st, z3.Not(ty.is_none(cur.t, cur.z)), "none")
                cur = V(cur.t.args[0], ty.unopt(cur.t, cur.z))
            if cur.t.kind == "Nd":
                from . import nd
                self.write_path(base[0], base[1], nd.assign_at(self, cur, tgt.slice, v, st, tgt), st, replace=False)
                return
            if cur.t.kind == "List":
                if isinstance(tgt.slice, ast.Slice):
                    raise Unsupported("slice assignment")
                i = self.coerce(self.ev1(tgt.slice, st), INT, st).z
                n = ty.l_len(cur.t, cur.z)
                self.may_raise("IndexError", z3.And(-n <= i, i < n), st, f"index in range: {ast.unparse(tgt)}", tgt.lineno)
                self.write_path(base[0], base[1] + [("i", norm_index(i, n))], v, st)
                self.after_store((base[0], base[1] + [("i", norm_index(i, n))], cur.t.args[0]), srcnode, st)
                return
            if cur.t.isdict:
                k = self.coerce(self.ev1(tgt.slice, st), cur.t.args[0], st).z
                self.write_path(base[0], base[1] + [("k", k)], v, st)
                self.after_store((base[0], base[1] + [("k", k)], cur.t.args[1]), srcnode, st)
                return
            raise Unsupported(f"assignment into {cur.t}")
        raise Unsupported("assignment target")

    def after_store(self, place, srcnode, st):
        """d[k] = x with x a local name owning a mutable container: x now aliases the slot"""
        if place[2] is None or not place[2].mutable or srcnode is None:
            return
        if isinstance(srcnode, ast.Name):
            k = self.lookup(srcnode.id, st)
            if k is not None and isinstance(st.env[k], V) and st.env[k].t.mutable:
                for n, b in list(st.env.items()):
                    if isinstance(b, Alias) and b.root == k:
                        st.env[n] = Alias(place[0], place[1] + list(b.path), b.t)
                if place[0] != k:
                    st.env[k] = Alias(place[0], place[1], place[2])
                    self.record_write(k)
                return
        if isinstance(srcnode, (ast.Name, ast.Attribute, ast.Subscript)):
            self.share_expr(srcnode, st)
            st.shared = st.shared + [(place[0], list(place[1]))]

    def unpack(self, tgt, v, st):
        if isinstance(v, V) and v.t.kind == "Opt":
            v = self.coerce(v, v.t.args[0], st)
        if isinstance(v, V) and v.t.kind == "Tuple":
            v = MTuple([V(a, ty.acc(v.t, v.z, i)) for i, a in enumerate(v.t.args)])
        if isinstance(v, V) and v.t.kind == "List":
            n = ty.l_len(v.t, v.z)
            self.emit("unpacked list has the right length", st, n == len(tgt.elts), "safety", tgt.lineno)
            v = MTuple([V(v.t.args[0], z3.Select(ty.l_arr(v.t, v.z), i)) for i in range(len(tgt.elts))])
        if not isinstance(v, MTuple) or len(v.items) != len(tgt.elts):
            raise Unsupported("unpacking")
        for t, x in zip(tgt.elts, v.items):
            self.assign(t, x, st)

    def bind_target(self, tgt, v, st, ep=None):
        """loop targets; ep: place(s) of mutable elements"""
        if isinstance(tgt, ast.Name):
            if isinstance(ep, tuple):
                self.bind_name(tgt.id, Alias(ep[0], ep[1], ep[2]), st)
            else:
                self.bind_name(tgt.id, v, st)
            return
        if isinstance(tgt, (ast.Tuple, ast.List)):
            if isinstance(v, V) and v.t.kind == "Tuple":
                v = MTuple([V(a, ty.acc(v.t, v.z, i)) for i, a in enumerate(v.t.args)])
            if isinstance(v, V) and v.t.kind == "List":
                self.unpack(tgt, v, st)
                return
            if isinstance(v, MTuple):
                if len(v.items) != len(tgt.elts):
                    raise Unsupported("unpacking")
                eps = ep if isinstance(ep, list) else [None] * len(v.items)
                for t, x, e in zip(tgt.elts, v.items, eps):
                    self.bind_target(t, x, st, e)
                return
        raise Unsupported("loop target")

    def st_AugAssign(self, node, st):
        load = copy.deepcopy(node.target)
        for n in ast.walk(load):
            if hasattr(n, "ctx"):
                n.ctx = ast.Load()
        outs = []
        from . import nd
        try:
            p = self.place(load, st) if not isinstance(load, ast.Subscript) else None
        except Unsupported:
            p = None
        if p is not None and p[2] is not None and p[2].kind == "Nd":     # in place: other names see it
            for s, b in self.ev(node.value, st):
                cur = self.read_path(p[0], p[1], s)
                self.write_path(p[0], p[1], nd.store(self, nd.binop(self, node.op, cur, b, s, node), s, cur.t.args[0]), s, replace=False)
                outs.append(("normal", s, None))
            return outs
        if isinstance(node.op, ast.Add):
            p = None
            try:
                p = self.place(load, st)
            except Unsupported:
                pass
            if p is not None and p[2] is not None and p[2].kind == "List":
                # in-place extend
                for s, b in self.ev(node.value, st):
                    self.check_place_read(load, s)
                    cur = self.read_path(p[0], p[1], s)
                    self.write_path(p[0], p[1], self.concat(cur, b, s), s, replace=False)
                    outs.append(("normal", s, None))
                return outs
        for s, a in self.ev(load, st):
            for s2, b in self.ev(node.value, s):
                self.assign(node.target, self.binop(node.op, a, b, s2, node), s2)
                outs.append(("normal", s2, None))
        return outs

    def st_Return(self, node, st):
        if node.value is None:
            return [("return", st, self.const(None))]
        return [("return", s, v) for s, v in self.ev(node.value, st)]

    def st_If(self, node, st):
        outs = []
        for s, c in self.ev(node.test, st):
            b = z3.simplify(self.truth(c, s))
            if not z3.is_false(b):
                s1 = s.copy()
                s1.pc.append(b)
                self.narrow(node.test, True, s1)
                outs += self.block(node.body, s1)
            nb = z3.simplify(z3.Not(b))
            if not z3.is_false(nb):
                s1 = s.copy()
                s1.pc.append(nb)
                self.narrow(node.test, False, s1)
                outs += self.block(node.orelse, s1)
        return self.merge(outs)

    def merge(self, outs):
        """paths that reach the end of an if in the same state (nothing was assigned) are continued once, with the disjunction of what was learnt in the branches"""
        res, groups = [], {}
        for o in outs:
            if o[0] != "normal":
                res.append(o)
                continue
            s = o[1]
            key = (tuple(sorted((k, id(v)) for k, v in s.env.items())), len(s.shared), tuple(sorted((k, id(v)) for k, v in s.ghost.items())))
            if key not in groups:
                groups[key] = o
                res.append(o)
            else:
                f = groups[key][1]
                n = 0
                while n < min(len(f.pc), len(s.pc)) and f.pc[n] is s.pc[n]:
                    n += 1
                a, b = f.pc[n:], s.pc[n:]
                f.pc = f.pc[:n]
                if a and b:
                    br = ty.fresh("branch", z3.BoolSort())
                    f.pc += [z3.Implies(br, x) for x in a] + [z3.Implies(z3.Not(br), x) for x in b]
        return res

    def narrow(self, test, val, st):
        pass

    def st_Assert(self, node, st):
        outs = []
        for s, c in self.ev(node.test, st):
            b = self.truth(c, s)
            self.may_raise("AssertionError", b, s, f"assert {ast.unparse(node.test)[:80]}", node.lineno)
            outs.append(("normal", s, None))
        return outs

    def st_Raise(self, node, st):
        if node.exc is None:
            return [("raise", st, getattr(self, "current_exc", None) or "Exception")]
        e = node.exc
        if isinstance(e, ast.Call):
            e = e.func
        name = (dotted(e) or "Exception").split(".")[-1]
        if isinstance(e, ast.Name) and self.lookup(e.id, st) is not None:
            return [("raise", st, getattr(self, "current_exc", None) or "Exception")]
        return [("raise", st, name)]

    def st_Break(self, node, st):
        return [("break", st, None)]

    def st_Continue(self, node, st):
        return [("continue", st, None)]

    def st_With(self, node, st):
        mon = self.c.get("monitor")
        if mon and len(node.items) == 1 and ast.unparse(node.items[0].context_expr) == mon["lock"] and node.items[0].optional_vars is None:
            self.monitor_acquire(mon, st)
            outs = []
            for kind, s, pay in self.block(node.body, st):
                self.monitor_release(mon, s, node.lineno)
                outs.append((kind, s, pay))
            return outs
        states = [st]
        for item in node.items:
            nxt = []
            for s in states:
                ce = item.context_expr
                txt = ast.unparse(ce)
                if any(x in txt.lower() for x in ("lock", "pylint")) and item.optional_vars is None:
                    nxt.append(s)
                    continue
                for s2, v in self.ev(ce, s):
                    if item.optional_vars is not None:
                        self.assign(item.optional_vars, v, s2, ce)
                    nxt.append(s2)
            states = nxt
        outs = []
        for s in states:
            outs += self.block(node.body, s)
        return outs
    st_AsyncWith = st_With

    def cut_facts(self, tag, facts, s, line, hs):
        """intermediate facts: proved first, one after the other, then used"""
        s2 = s
        for k2, e2 in enumerate(facts):
            s2 = s.copy() if s2 is s else s2
            try:
                g = self.spec_bool(e2, s2)
            except (Unsupported, KeyError):     # names that are not bound on this path
                continue
            if (id(s), e2) not in self.__dict__.setdefault("_cut_done", {}):
                self.emit(f"{tag}, intermediate fact {k2}: {e2}", s2, g, "cut", line, hints=hs)
                self._cut_done[(id(s), e2)] = (s, g)     # holds s, so that its id stays its own
            s2.pc.append(g)
        return s2

    # monitors: fields shared with another thread are havocked when the lock is taken, the invariant is assumed there and has to hold
    # (with the guarantee towards the other thread) whenever the lock is given up
    def monitor_acquire(self, mon, st):
        for f in mon.get("snapshot", []):
            st.env["ghost:before_" + f.split(".")[-1]] = st.env[self.field_key(f)]
            self.record_write("ghost:before_" + f.split(".")[-1])
        for f in mon.get("havoc", []):
            k = self.field_key(f)
            st.env[k] = self.fresh_value(f, st.env[k].t, st)
            self.record_write(k)
        for e in mon.get("inv", []) + mon.get("rely", []):
            st.pc.append(self.spec_bool(e, st))
        for f in mon.get("snapshot", []):
            st.env["ghost:before_" + f.split(".")[-1]] = st.env[self.field_key(f)]

    def monitor_release(self, mon, st, line):
        for f, e in mon.get("publish", []):
            k = self.field_key(f)
            v = self.spec_val(e, st)
            st.env[k] = self.named(self.coerce(v, st.env[k].t, st), st, f)
            self.record_write(k)
        hs = self.hints(st) if mon.get("cuts") else []
        for k, e in enumerate(mon.get("inv", [])):
            s2 = self.cut_facts(f"monitor invariant {k}", mon.get("cuts", {}).get(k, []), st, line, hs)
            g = self.spec_bool(e, s2)
            self.emit(f"monitor invariant {k} when the lock is released: {e}", s2, g, "monitor", line, hints=hs)
            st.pc.append(self.spec_bool(e, st))
        for k, e in enumerate(mon.get("guarantee", [])):
            self.emit(f"guarantee {k} when the lock is released: {e}", st, self.spec_bool(e, st), "monitor", line)

    def st_Try(self, node, st):
        hs = []
        for h in node.handlers:
            if h.type is None:
                hs.append("BaseException")
            elif isinstance(h.type, ast.Tuple):
                hs += [dotted(x).split(".")[-1] for x in h.type.elts]
            else:
                hs.append(dotted(h.type).split(".")[-1])
        self.handlers.append(hs)
        try:
            outs = self.block(node.body, st)
        finally:
            self.handlers.pop()
        res = []
        for kind, s, pay in outs:
            if kind == "normal":
                res += self.block(node.orelse, s) if node.orelse else [(kind, s, pay)]
                continue
            if kind == "raise":
                for h in node.handlers:
                    names = ["BaseException"] if h.type is None else (
                        [dotted(x).split(".")[-1] for x in h.type.elts] if isinstance(h.type, ast.Tuple) else [dotted(h.type).split(".")[-1]])
                    if any(exc_match(pay, n) for n in names):
                        s = s.copy()
                        if h.name:
                            s.env[self.q(h.name)] = Py(f"exc:{pay}")
                        prev = getattr(self, "current_exc", None)
                        self.current_exc = pay
                        res += self.block(h.body, s)
                        self.current_exc = prev
                        break
                else:
                    res.append((kind, s, pay))
                continue
            res.append((kind, s, pay))
        if node.finalbody:
            fin = []
            for kind, s, pay in res:
                for k2, s2, p2 in self.block(node.finalbody, s):
                    fin.append((kind, s2, pay) if k2 == "normal" else (k2, s2, p2))
            res = fin
        return res

    # ------------------------------------------------------------------ loops
    def loop_contract(self, node):
        key = (id(node), tuple(self.frames))
        if id(node) not in self.loops_seen:
            self.loops_seen[id(node)] = len(self.loop_order)
            self.loop_order.append(node)
        idx = self.loops_seen[id(node)]
        return idx, self.c.get("loops", {}).get(idx, {})

    def st_While(self, node, st):
        idx, lc = self.loop_contract(node)
        return self.loop(node, st, idx, lc, None)

    def st_For(self, node, st):
        idx, lc = self.loop_contract(node)
        outs = []
        seq = self.iter_view(node.iter, st)
        if isinstance(seq.src, V) and seq.src.t.kind == "List":
            st.env[f"ghost:_it{idx}"] = seq.src     # the list iterated over, for specifications
        n = z3.simplify(seq.n)
        if z3.is_int_value(n) and n.as_long() <= self.c.get("unroll", 4) and seq.lazy_iter is None:
            cur, done = [st], []
            for i in range(n.as_long()):
                nxt = []
                for s in cur:
                    s = s.copy()
                    self.bind_target(node.target, seq.get(z3.IntVal(i), s), s, seq.elem_place(z3.IntVal(i)) if seq.elem_place else None)
                    for kind, s2, pay in self.block(node.body, s):
                        if kind in ("normal", "continue"):
                            nxt.append(s2)
                        elif kind == "break":
                            done.append(("normal", s2, None))
                        else:
                            done.append((kind, s2, pay))
                cur = nxt
            res = []
            for s in cur:
                res += self.block(node.orelse, s) if node.orelse else [("normal", s, None)]
            return done + res
        return self.loop(node, st, idx, lc, seq)
    st_AsyncFor = st_For

    def loop(self, node, st, idx, lc, seq):
        tag = f"loop{idx}"
        name = lc.get("index", f"_i{idx}")
        # ghost loop entry copies
        entry = st
        gi = f"ghost:{name}"
        gn = f"ghost:_n{idx}"
        invs = lc.get("inv", [])
        # modified roots
        key = (id(node), tuple(self.frames))
        mods = self.modcache.setdefault(key, set())
        if seq is not None and seq.lazy_iter is not None:
            root = seq.lazy_iter[0]
            b = st.env.get(root)
            mods.add(b.root if isinstance(b, Alias) else root)
        assigned = {self.q(n) for n in _assigned_names(node)}
        for attempt in range(12):
            mark = len(self.obls)
            seen_mark = None
            try:
                return self._loop_once(node, st, idx, lc, seq, mods, assigned, tag, gi, gn, invs)
            except _MoreWrites as mw:
                del self.obls[mark:]
                mods |= mw.roots
        raise Unsupported("loop write set does not stabilise")

    def _loop_once(self, node, st, idx, lc, seq, mods, assigned, tag, gi, gn, invs):
        def check_inv(s, phase):
            for k, e in enumerate(invs):
                self.emit(f"{tag} invariant {k} {phase}: {e if isinstance(e, str) else ''}", s, self.spec_bool(e, s), "inv", node.lineno)

        # --- initialisation
        for r in assigned:
            p = r.split(":", 1)[1]
            if self.frame == self.frame0 and p in self.param_names and f"par:{p}" not in st.env and isinstance(st.env.get(r), V):
                if st.env[r].t.mutable:
                    raise Unsupported(f"parameter {p} rebound inside a loop")
                st.env[f"par:{p}"] = st.env[r]
        s0 = st.copy()
        n = seq.n if seq is not None else None
        if seq is not None:
            s0.env[gi] = V(INT, z3.IntVal(0))
            nc = ty.fresh(f"n{idx}", z3.IntSort())
            s0.pc.append(nc == z3.If(n >= 0, n, z3.IntVal(0)) if not _nonneg(n) else nc == n)
            s0.env[gn] = V(INT, nc)
            s0.env[f"ghost:_s{idx}"] = seq
        else:
            s0.env[gi] = V(INT, z3.IntVal(0))
        self.loopentry = getattr(self, "loopentry", {})
        s0.env["ghost:_entry%d" % idx] = Py("entry")
        self.loopentry[idx] = s0
        check_inv(s0, "holds initially")
        # --- arbitrary iteration
        h = s0.copy()
        for r in sorted(mods | assigned):
            if r in h.env:
                b = h.env[r]
                if r in assigned and r not in mods and not isinstance(b, (V, Poly)):
                    h.env[r] = Alias("!unbound", [], None)
                    continue
                if isinstance(b, V):
                    t = b.t
                    if r.startswith(self.frame + ":"):
                        lt = self.local_type(r.split(":", 1)[1])
                        t = ty.parse(lt) if lt else t
                    h.env[r] = self.fresh_value(r.split(":")[-1], t, h)
                    self._break_all(r, h)
                elif isinstance(b, Poly):
                    lt = self.local_type(r.split(":", 1)[1]) if ":" in r else None
                    if lt is None:
                        raise Unsupported(f"type of {r} unknown at loop; declare it in the contract's locals")
                    h.env[r] = self.fresh_value(r.split(":")[-1], ty.parse(lt), h)
                elif isinstance(b, Alias) and r in assigned:
                    h.env[r] = Alias("!unbound", [], None)
        for g in list(h.env):
            if g.startswith("ghost:") and g in mods and isinstance(h.env[g], V):
                h.env[g] = self.fresh_value(g.split(":")[1], h.env[g].t, h)
        # fields assigned lazily
        iz = ty.fresh(gi.split(":")[1], z3.IntSort())
        h.env[gi] = V(INT, iz)
        h.pc.append(iz >= 0)
        if seq is not None:
            h.pc.append(iz <= h.env[gn].z)
        if seq is not None and seq.lazy_iter is not None:
            # an iterator is consumed as the loop runs: its position is entry position + index
            root, path, t = seq.lazy_iter
            cur = self.read_path(root, path, h)
            ent = self.read_path(root, path, s0)
            h.pc.append(ty.it_arr(t, cur.z) == ty.it_arr(t, ent.z))
            h.pc.append(ty.it_n(t, cur.z) == ty.it_n(t, ent.z))
            h.pc.append(ty.it_pos(t, cur.z) == ty.it_pos(t, ent.z) + iz)
        for e in invs:
            h.pc.append(self.spec_bool(e, h))
        exits = []
        res = []
        # loop condition
        iters = []
        if seq is not None:
            b = h.copy()
            b.pc.append(iz < h.env[gn].z)
            iters.append(b)
            x = h.copy()
            x.pc.append(iz == h.env[gn].z)
            exits.append(x)
        else:
            w = set()
            self.writes.append(w)
            try:
                cond_outs = self.ev(node.test, h.copy())
            finally:
                self.writes.pop()
            extra = {r for r in w if r in st.env and r not in mods}
            if extra:
                raise _MoreWrites(extra)
            for s, c in cond_outs:
                bz = z3.simplify(self.truth(c, s))
                if not z3.is_false(bz):
                    s1 = s.copy()
                    s1.pc.append(bz)
                    iters.append(s1)
                nb = z3.simplify(z3.Not(bz))
                if not z3.is_false(nb):
                    s1 = s.copy()
                    s1.pc.append(nb)
                    exits.append(s1)
        w = set()
        self.writes.append(w)
        try:
            for b in iters:
                start = b.copy()
                if seq is not None:
                    el = seq.get(iz, b)
                    if seq.lazy_iter is not None:
                        root, path, t = seq.lazy_iter
                        cur = self.read_path(root, path, b)
                        self.write_path(root, path, V(t, ty.mk(t, ty.it_arr(t, cur.z), ty.it_n(t, cur.z), ty.it_pos(t, cur.z) + 1)), b, replace=False)
                        ent = self.read_path(root, path, s0)
                        el = V(t.args[0], z3.Select(ty.it_arr(t, ent.z), ty.it_pos(t, ent.z) + iz))
                    self.bind_target(node.target, el, b, seq.elem_place(iz) if seq.elem_place else None)
                dec0 = self.spec_val(lc["decreases"], start).z if lc.get("decreases") else None
                if dec0 is not None:
                    self.emit(f"{tag} variant is non-negative", start, dec0 >= 0, "variant", node.lineno)
                for gname, gexpr in lc.get("ghost_start", []):
                    self.ghost_assign(gname, gexpr, b)
                for k, e in enumerate(lc.get("asserts", [])):
                    g = self.spec_bool(e, b)
                    self.emit(f"{tag} cut {k}: {e}", b, g, "cut", node.lineno)
                    b.pc.append(g)
                for kind, s2, pay in self.block(node.body, b):
                    if kind in ("normal", "continue"):
                        s2 = s2.copy()
                        for gname, gexpr in lc.get("ghost_end", []):
                            self.ghost_assign(gname, gexpr, s2)
                        s2.env[gi] = V(INT, iz + 1)
                        check_inv(s2, "is preserved")
                        if dec0 is not None:
                            self.emit(f"{tag} variant decreases", s2, self.spec_val(lc["decreases"], s2).z < dec0, "variant", node.lineno)
                    elif kind == "break":
                        exits_b = s2.copy()
                        res.append(("break", exits_b, None))
                    else:
                        res.append((kind, s2, pay))
        finally:
            self.writes.pop()
        extra = {r for r in w if r not in mods and (r in st.env) and not (r in assigned)}
        extra |= {r for r in w if r in st.env and r in assigned and isinstance(st.env[r], V) and r not in mods}
        if extra:
            raise _MoreWrites(extra)
        for r in w:
            self.record_write(r)
        out = []
        for x in exits:
            x = x.copy()
            for k, e in enumerate(lc.get("exit_asserts", [])):      # facts proved when the loop ends, used afterwards
                g = self.spec_bool(e, x)
                self.emit(f"{tag} exit cut {k}: {e}", x, g, "cut", node.lineno)
                x.pc.append(g)
            if node.orelse:
                out += self.block(node.orelse, x)
            else:
                out.append(("normal", x, None))
        for kind, s2, pay in res:
            out.append(("normal", s2, None) if kind == "break" else (kind, s2, pay))
        return out

    def _break_all(self, root, st):
        for n, b in list(st.env.items()):
            if isinstance(b, Alias) and b.root == root and b.path:
                # aliases into a havocked container keep denoting the same place only if the path stays valid;
                # element replacement inside the loop would have broken them during the body run
                pass

    def ghost_assign(self, name, expr, st):
        k = "ghost:" + name
        v = self.spec_val(expr, st)
        t = st.env[k].t
        self.record_write(k)
        if t.kind == "Map" and isinstance(v, Lam):
            st.env[k] = self.map_of_lambda(v, t, st)
        else:
            st.env[k] = self.named(self.coerce(v, t, st), st, name)

    def map_of_lambda(self, lam, t, st):
        new = ty.fresh("map", ty.sort(t))

        def rec(cur, tt, args, names):
            if not names:
                return cur, tt, args
        vs = []
        cur, tt = new, t
        bound = {}
        for a in lam.node.args.args:
            x = ty.fresh(a.arg, ty.sort(tt.args[0]))
            bound[a.arg] = V(tt.args[0], x)
            vs.append(x)
            cur = z3.Select(cur, x)
            tt = tt.args[1]
        body = self.coerce(self.sp(lam.node.body, st, bound), tt, st)
        st.pc.append(ty.forall(vs, cur == body.z, [cur]))
        return V(t, new)

    # ------------------------------------------------------------------ yields
    def ev_Yield(self, node, st):
        outs = []
        srcs = self.ev(node.value, st) if node.value is not None else [(st, None)]
        for s, v in srcs:
            outs.append(self.do_yield(v, s, node))
        return outs

    def do_yield(self, v, s, node):
        if len(self.frames) > 1 and not getattr(self, "_yf", False):
            raise Unsupported("yield in helper")
        yc = self.c
        if v is not None:
            yt = ty.parse(yc["yields"])
            yv = self.coerce(v, yt, s)
            yv = self.named(yv, s, "y")
            s.env["ghost:_y"] = yv
            for k, e in enumerate(yc.get("at_yield", [])):
                self.emit(f"yield condition {k}: {e}", s, self.spec_bool(e, s), "yield", node.lineno)
            for gname, gexpr in yc.get("on_yield", []):
                self.ghost_assign(gname, gexpr, s)
            if "ghost:_out" in s.env:
                o = s.env["ghost:_out"]
                self.record_write("ghost:_out")
                s.env["ghost:_out"] = self.named(V(o.t, ty.mk(o.t, z3.Store(ty.l_arr(o.t, o.z), ty.l_len(o.t, o.z), yv.z), ty.l_len(o.t, o.z) + 1)), s, "out")
        else:
            for k, e in enumerate(yc.get("at_prime", [])):
                self.emit(f"first yield condition {k}: {e}", s, self.spec_bool(e, s), "yield", node.lineno)
        for f in yc.get("yield_havoc", []):
            k = self.field_key(f)
            s.env[k] = self.fresh_value(f, s.env[k].t, s)
            self.record_write(k)
        st_ = yc.get("sends")
        if st_ is None:
            return (s, self.const(None))
        sv = self.fresh_value("sent", ty.parse(st_), s)
        s.env["ghost:_sent"] = sv
        self.record_write("ghost:_sent")
        for e in yc.get("send_requires", []):
            s.pc.append(self.spec_bool(e, s))
        for gname, gexpr in yc.get("on_resume", []):
            self.ghost_assign(gname, gexpr, s)
        return (s, sv)

    def field_key(self, f):
        return "fld:" + f if f.startswith("self.") else self.q(f)

    def ev_YieldFrom(self, node, st):
        # yield from <iterable>  ==  for x in iterable: yield x
        var = "_yf_%d" % node.lineno
        g = node.value
        if isinstance(g, ast.GeneratorExp) and len(g.generators) == 1 and not hasattr(node, "_yf_node"):
            # yield from (e for x in s if c)  ==  for x in s: if c: yield e      (x is a variable of its own)
            gen = g.generators[0]
            if any(isinstance(n, ast.Name) and self.lookup(n.id, st) is not None for n in ast.walk(gen.target)):
                raise Unsupported("generator variable shadows a local")
            body = [ast.Expr(value=ast.Yield(value=g.elt))]
            for c in gen.ifs[::-1]:
                body = [ast.If(test=c, body=body, orelse=[])]
            node._yf_node = ast.copy_location(ast.For(target=gen.target, iter=gen.iter, body=body, orelse=[]), node)
            ast.fix_missing_locations(node._yf_node)
        loop = ast.For(target=ast.Name(id=var, ctx=ast.Store()), iter=node.value,
                       body=[ast.Expr(value=ast.Yield(value=ast.Name(id=var, ctx=ast.Load())))], orelse=[])
        key = "_yf_node"
        if not hasattr(node, key):
            ast.copy_location(loop, node)
            ast.fix_missing_locations(loop)
            setattr(node, key, loop)
        loop = getattr(node, key)
        outs = []
        if isinstance(node.value, ast.Call):
            r = self.lib.yield_from_call(self, node.value, st)
            if r is not None:
                return r
        for kind, s, pay in self.stmt(loop, st):
            if kind == "normal":
                outs.append((s, self.const(None)))
            else:
                self.sinks[-1].append((kind, s, pay))
        return outs

    # ------------------------------------------------------------------ specification expressions
    def spec_bool(self, e, st, bound=None):
        v = self.spec_val(e, st, bound)
        return self.truth(v, st)

    def spec_val(self, e, st, bound=None):
        if callable(e):
            return e(self, st)
        node = self.lib.parse_spec(e) if isinstance(e, str) else e
        return self.sp(node, st, bound or {})

    def sp_name(self, name, st, bound):
        if name in bound:
            return bound[name]
        if name in ("True", "False"):
            return V(BOOL, z3.BoolVal(name == "True"))
        if name in ("result", "_out", "_y", "_sent") and "ghost:" + name in st.env:
            return st.env["ghost:" + name]
        for fr in reversed(self.frames):
            k = f"{fr}:{name}"
            if k in st.env:
                b = st.env[k]
                if isinstance(b, Alias):
                    if b.root in ("!broken", "!unbound"):
                        raise Unsupported(f"{name} not available in specification")
                    return self.read_path(b.root, b.path, st)
                return b
        if "ghost:" + name in st.env:
            return st.env["ghost:" + name]
        mc = self.module_const(name)
        if mc is not None:
            return mc
        raise Unsupported(f"unknown name {name} in specification")

    def sp(self, node, st, bound):
        k = type(node).__name__
        if k == "Expression":
            return self.sp(node.body, st, bound)
        if k == "Constant":
            return self.const(node.value)
        if k == "Name":
            return self.sp_name(node.id, st, bound)
        if k == "Lambda":
            return Lam(node, self.frame)
        if k == "Attribute":
            dn = dotted(node)
            if dn and ("fld:" + dn) in st.env:
                b = st.env["fld:" + dn]
                return self.read_path(b.root, b.path, st) if isinstance(b, Alias) else b
            v = self.sp(node.value, st, bound)
            return self.sp_attr(v, node.attr, st)
        if k == "Tuple":
            return MTuple([self.sp(x, st, bound) for x in node.elts])
        if k == "List":
            if not node.elts:
                return Poly("List")
            items = [self.sp(x, st, bound) for x in node.elts]
            et = self.infer(items[0])
            return self.list_of([self.coerce(x, et, st) for x in items], List(et))
        if k == "Subscript":
            b = self.sp(node.value, st, bound)
            if isinstance(node.slice, ast.Slice):
                raise Unsupported("slice in specification")
            i = self.sp(node.slice, st, bound)
            return self.sp_index(b, i, st)
        if k == "BinOp":
            return self.binop(node.op, self.sp(node.left, st, bound), self.sp(node.right, st, bound), st, node, spec=True)
        if k == "UnaryOp":
            v = self.sp(node.operand, st, bound)
            if isinstance(node.op, ast.Not):
                return V(BOOL, z3.Not(self.truth(v, st)))
            return V(v.t, -v.z)
        if k == "BoolOp":
            vs = [self.truth(self.sp(x, st, bound), st) for x in node.values]
            return V(BOOL, z3.And(*vs) if isinstance(node.op, ast.And) else z3.Or(*vs))
        if k == "Compare":
            vals = [self.sp(x, st, bound) for x in [node.left] + node.comparators]
            z = [self.sp_compare(op, vals[i], vals[i + 1], st) for i, op in enumerate(node.ops)]
            return V(BOOL, z3.And(*z) if len(z) > 1 else z[0])
        if k == "IfExp":
            c = self.truth(self.sp(node.test, st, bound), st)
            a, b = self.mat(self.sp(node.body, st, bound), st), self.mat(self.sp(node.orelse, st, bound), st)
            if a.t is not b.t:
                a, b = self.coerce(a, REAL, st), self.coerce(b, REAL, st)
            return V(a.t, z3.If(c, a.z, b.z))
        if k == "Call":
            return self.sp_call(node, st, bound)
        if k == "GeneratorExp":
            return GenExp(node, self.frame)
        raise Unsupported(f"specification construct {k}")

    def sp_compare(self, op, a, b, st):
        # no obligations in specification: unwrap optionals silently
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)):
            if isinstance(a, V) and a.t.kind == "Opt" and isinstance(b, V) and b.t.kind not in ("Opt", "None"):
                if isinstance(op, ast.Eq):
                    return z3.And(z3.Not(ty.is_none(a.t, a.z)), self.equal(V(a.t.args[0], ty.unopt(a.t, a.z)), b, st))
                a = V(a.t.args[0], ty.unopt(a.t, a.z))
            if isinstance(b, V) and b.t.kind == "Opt" and isinstance(a, V) and a.t.kind not in ("Opt", "None") and not isinstance(op, (ast.Eq, ast.NotEq)):
                b = V(b.t.args[0], ty.unopt(b.t, b.z))
        return self.compare(op, a, b, st)

    def sp_attr(self, v, attr, st):
        if isinstance(v, V):
            if v.t.kind == "Opt":
                v = V(v.t.args[0], ty.unopt(v.t, v.z))
            if v.t.kind == "Iter":
                if attr == "pos":
                    return V(INT, ty.it_pos(v.t, v.z))
                if attr == "n":
                    return V(INT, ty.it_n(v.t, v.z))
                if attr == "seq":
                    lt = List(v.t.args[0])
                    return V(lt, ty.mk(lt, ty.it_arr(v.t, v.z), ty.it_n(v.t, v.z)))
            if v.t.kind == "Cell" and attr == "value":
                return V(v.t.args[0], ty.acc(v.t, v.z, 0))
            if v.t.isdict or v.t.kind == "Set":
                if attr == "order":     # insertion order as list
                    lt = List(v.t.args[0])
                    return V(lt, ty.mk(lt, ty.d_keys(v.t, v.z), ty.d_n(v.t, v.z)))
            if v.t.kind == "U":
                hk = f"heap:{v.t.name}.{attr}"
                if hk in st.env:
                    return V(st.env[hk].t.args[1], z3.Select(st.env[hk].z, v.z))
                fk = (v.t.name, attr)
                if fk in self.lib.attrs:
                    rt = self.lib.attrs[fk]
                    return V(rt, self.func(f"attr_{v.t.name}_{attr}", [v.t], rt)(v.z))
        raise Unsupported(f"attribute {attr} in specification")

    def sp_index(self, b, i, st):
        if isinstance(b, MTuple):
            return b.items[z3.simplify(i.z).as_long()]
        if isinstance(b, Seq):
            return b.get(self.coerce(i, INT, st).z, st)
        if b.t.kind == "Opt":
            b = V(b.t.args[0], ty.unopt(b.t, b.z))
        if b.t.kind in ("List", "Nd"):
            iz = self.coerce(i, INT, st).z
            if z3.is_int_value(iz) and iz.as_long() < 0:
                iz = ty.l_len(b.t, b.z) + iz
            return V(b.t.args[0], z3.Select(ty.l_arr(b.t, b.z), iz))
        if b.t.isdict:
            return V(b.t.args[1], z3.Select(ty.d_val(b.t, b.z), self.coerce(i, b.t.args[0], st).z))
        if b.t.kind == "Tuple":
            j = z3.simplify(i.z).as_long()
            j = j + len(b.t.args) if j < 0 else j
            return V(b.t.args[j], ty.acc(b.t, b.z, j))
        if b.t.kind == "Map":
            return V(b.t.args[1], z3.Select(b.z, self.coerce(i, b.t.args[0], st).z))
        raise Unsupported("index in specification")

    def quant(self, gen, st, bound, isall):
        """all/any over a generator expression"""
        node = gen.node
        vs, guards, b = [], [], dict(bound)
        for g in node.generators:
            it = g.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range":
                args = [self.coerce(self.sp(a, st, b), INT, st).z for a in it.args]
                lo, hi = (z3.IntVal(0), args[0]) if len(args) == 1 else args[:2]
                x = ty.fresh(g.target.id, z3.IntSort())
                vs.append(x)
                guards += [lo <= x, x < hi]
                b[g.target.id] = V(INT, x)
            else:
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ("items", "keys", "values"):
                    d = self.sp(it.func.value, st, b)
                    which = it.func.attr
                else:
                    d = self.sp(it, st, b)
                    which = "keys"
                if isinstance(d, V) and d.t.kind == "Opt":
                    d = V(d.t.args[0], ty.unopt(d.t, d.z))
                if isinstance(d, V) and (d.t.isdict or d.t.kind == "Set"):
                    x = ty.fresh("k", ty.sort(d.t.args[0]))
                    vs.append(x)
                    guards.append(z3.Select(ty.d_dom(d.t, d.z), x))
                    kv = V(d.t.args[0], x)
                    if which == "keys":
                        self.sp_bind(g.target, kv, b)
                    else:
                        vv = V(d.t.args[1], z3.Select(ty.d_val(d.t, d.z), x))
                        self.sp_bind(g.target, vv if which == "values" else MTuple([kv, vv]), b)
                else:
                    s = self.seq_of(d, st)
                    x = ty.fresh("i", z3.IntSort())
                    vs.append(x)
                    guards += [0 <= x, x < s.n]
                    self.sp_bind(g.target, s.get(x, st), b)
            for c in g.ifs:
                guards.append(self.truth(self.sp(c, st, b), st))
        body = self.truth(self.sp(node.elt, st, b), st)
        if isall:
            return V(BOOL, ty.forall(vs, z3.Implies(z3.And(*guards), body)))
        return V(BOOL, z3.Exists(vs, z3.And(*guards, body)))

    def sp_bind(self, tgt, v, b):
        if isinstance(tgt, ast.Name):
            b[tgt.id] = v
        else:
            if isinstance(v, V) and v.t.kind == "Tuple":
                v = MTuple([V(a, ty.acc(v.t, v.z, i)) for i, a in enumerate(v.t.args)])
            for t, x in zip(tgt.elts, v.items):
                self.sp_bind(t, x, b)

    def sp_call(self, node, st, bound):
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in ("keys", "values", "items") and not node.args:
            return self.sp(f.value, st, bound)
        name = f.id if isinstance(f, ast.Name) else dotted(f)
        if name in ("all", "any"):
            g = self.sp(node.args[0], st, bound)
            return self.quant(g, st, bound, name == "all")
        if name == "old":
            if self.old is None:
                raise Unsupported("old outside a contract")
            o = self.old
            r = self.sp(node.args[0], o, {**bound})
            return r
        if name == "entry":      # entry(k, expr): value at the entry of loop k
            kk = node.args[0].value
            return self.sp(node.args[1], self.loopentry[kk], bound)
        if name == "implies":
            a = self.truth(self.sp(node.args[0], st, bound), st)
            return V(BOOL, z3.Implies(a, self.truth(self.sp(node.args[1], st, bound), st)))
        if name == "iff":
            return V(BOOL, self.truth(self.sp(node.args[0], st, bound), st) == self.truth(self.sp(node.args[1], st, bound), st))
        if name in ("forall", "exists"):
            ts = [ty.parse(x.strip()) for x in _split_types(node.args[0].value)]
            lam = node.args[1]
            b = dict(bound)
            vs = []
            for a, t in zip(lam.args.args, ts):
                x = ty.fresh(a.arg, ty.sort(t))
                vs.append(x)
                b[a.arg] = V(t, x)
            body = self.truth(self.sp(lam.body, st, b), st)
            pats = []
            for kw in node.keywords:
                if kw.arg == "trig":
                    ps = [self.sp(e, st, b).z for e in (kw.value.elts if isinstance(kw.value, ast.Tuple) else [kw.value])]
                    pats = [z3.MultiPattern(*ps)] if len(ps) > 1 else ps
            if name == "exists":
                return V(BOOL, z3.Exists(vs, body))
            return V(BOOL, ty.forall(vs, body, pats))
        args = None
        if name == "len":
            v = self.sp(node.args[0], st, bound)
            return V(INT, self.length(v, st))
        if name == "some":      # is not None
            v = self.sp(node.args[0], st, bound)
            return V(BOOL, z3.Not(ty.is_none(v.t, v.z)))
        if name == "val":
            v = self.sp(node.args[0], st, bound)
            return V(v.t.args[0], ty.unopt(v.t, v.z)) if v.t.kind == "Opt" else v
        if name == "real":
            return self.coerce(self.sp(node.args[0], st, bound), REAL, st)
        if name == "floor":
            v = self.sp(node.args[0], st, bound)
            return V(INT, z3.ToInt(v.z)) if v.t is REAL else v
        if name == "abs":
            v = self.sp(node.args[0], st, bound)
            return V(v.t, z3.If(v.z >= 0, v.z, -v.z))
        if name in ("min", "max") and len(node.args) == 2:
            a, b = (self.sp(x, st, bound) for x in node.args)
            if a.t is not b.t:
                a, b = self.coerce(a, REAL, st), self.coerce(b, REAL, st)
            c = a.z <= b.z if name == "min" else a.z >= b.z
            return V(a.t, z3.If(c, a.z, b.z))
        if name == "keylt":     # the (abstract) total order of keys
            a, b = (self.sp(x, st, bound) for x in node.args)
            return V(BOOL, self.lib.lt(self, a.t)(a.z, b.z))
        return self.lib.spec_call(self, name, [self.sp(a, st, bound) for a in node.args], st)

    def length(self, v, st):
        if isinstance(v, Seq):
            return v.n
        if isinstance(v, MTuple):
            return z3.IntVal(len(v.items))
        if isinstance(v, Poly):
            return z3.IntVal(0)
        if isinstance(v, Meta):
            raise Unsupported("len")
        if v.t.kind == "Opt":
            v = V(v.t.args[0], ty.unopt(v.t, v.z))
        if v.t.kind in ("List", "Nd"):
            return ty.l_len(v.t, v.z)
        if v.t.isdict or v.t.kind == "Set":
            return ty.d_n(v.t, v.z)
        if v.t is STR or v.t.kind == "U":
            f = self.func(f"len_{v.t}", [v.t], INT)
            st.pc.append(f(v.z) >= 0)
            return f(v.z)
        raise Unsupported(f"len of {v.t}")

    # ------------------------------------------------------------------ whole function
    def run(self):
        c = self.c
        st = State()
        for f, t in c.get("fields", {}).items():
            st.env["fld:self." + f] = None
        for f, t in c.get("fields", {}).items():
            tt = ty.parse(t)
            st.env["fld:self." + f] = self.fresh_value("self_" + f, tt, st)
        for h, t in c.get("heap", {}).items():      # "Cls.field": type
            cls, _ = h.split(".")
            mt = T("Map", (U(cls), ty.parse(t)))
            st.env["heap:" + h] = self.fresh_value("heap_" + h.replace(".", "_"), mt, st)
        fn = self.fn
        params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
        types = c.get("params", {})
        params += [a.arg for a in (fn.args.kwarg, fn.args.vararg) if a is not None and a.arg in types]
        self.frame0, self.param_names = self.frame, set(params)
        for p in params:
            if p in ("self", "cls"):
                continue
            if p not in types:
                raise Unsupported(f"parameter {p} has no type in the contract")
            if types[p].startswith("py:"):
                st.env[self.q(p)] = Py(types[p][3:] or p)
                continue
            st.env[self.q(p)] = self.fresh_value(p, ty.parse(types[p]), st)
        missing = [p for p in types if p not in params]
        if missing:
            raise Unsupported(f"parameters {missing} of the contract do not exist")
        for g, (t, init) in c.get("ghost", {}).items():
            tt = ty.parse(t)
            if init is None:
                st.env["ghost:" + g] = self.fresh_value("g_" + g, tt, st)
        if self.is_gen and c.get("yields") and c.get("track_out", True):
            lt = List(ty.parse(c["yields"]))
            st.env["ghost:_out"] = V(lt, ty.empty(lt))
        self.old = st.copy()
        self.entry_vars = {k: v for k, v in st.env.items() if isinstance(v, V)}
        for r in c.get("requires", []):
            st.pc.append(self.spec_bool(r, st))
        for r in c.get("assume", []) + c.get("axioms", []) + c.get("lemma_axioms", []):
            st.pc.append(self.spec_bool(r, st))
        for r in c.get("axioms", []):
            self.ext_used.add("axiom " + r[:150])
        for g, (t, init) in c.get("ghost", {}).items():
            tt = ty.parse(t)
            if init is not None:
                v = self.spec_val(init, st)
                st.env["ghost:" + g] = self.map_of_lambda(v, tt, st) if isinstance(v, Lam) else self.named(self.coerce(v, tt, st), st, g)
        self.old = st.copy()
        self.pre_pc = list(st.pc)
        sink = []
        self.sinks.append(sink)
        outs = self.block(fn.body, st)
        self.sinks.pop()
        outs = sink + outs
        rets = 0
        for kind, s, pay in outs:
            if kind in ("normal", "return"):
                rets += 1
                val = pay if kind == "return" else self.const(None)
                rt = c.get("returns")
                s = s.copy()
                if isinstance(val, Alias):
                    val = self.read_path(val.root, val.path, s)
                for p in params:
                    if f"par:{p}" in s.env:
                        s.env[self.q(p)] = s.env[f"par:{p}"]
                if rt:
                    rv = self.coerce(val, ty.parse(rt), s, "as result")
                    s.env["ghost:result"] = rv
                hs = self.hints(s)
                for k, e in enumerate(c.get("ensures", [])):
                    s2 = self.cut_facts(f"postcondition {k}", c.get("cuts", {}).get(k, []), s, getattr(fn, "lineno", None), hs)
                    self.emit(f"postcondition {k}: {e if isinstance(e, str) else getattr(e, '__name__', '')}", s2, self.spec_bool(e, s2), "post", getattr(fn, "lineno", None), hints=hs)
                fr_ = list(c.get("unchanged", []))
                if "modifies" in c:
                    fr_ += [f for f in c.get("fields", {}) if f"self.{f}" not in c["modifies"] and f not in fr_]
                    for h in c.get("heap", {}):
                        if "heap:" + h not in c["modifies"]:
                            k2 = "heap:" + h
                            self.emit(f"frame: {h} is unchanged", s, s.env[k2].z == self.old.env[k2].z, "frame", fn.lineno)
                for f in fr_:
                    k2 = "fld:self." + f
                    self.emit(f"frame: self.{f} is unchanged", s, ty.eq(s.env[k2].t, s.env[k2].z, self.old.env[k2].z), "frame", fn.lineno)
                for p in c.get("params_unchanged", []):
                    k2 = self.q(p)
                    b = s.env[k2]
                    b = self.read_path(b.root, b.path, s) if isinstance(b, Alias) else b
                    self.emit(f"frame: argument {p} is unchanged", s, ty.eq(b.t, b.z, self.old.env[k2].z), "frame", fn.lineno)
            elif kind == "raise":
                conds = c.get("raises", {})
                if pay in conds:        # judged in the state in which the function was called
                    pre = self.old.copy()
                    pre.pc = s.pc
                    self.emit(f"{pay} only raised when allowed: {conds[pay]}", s, self.spec_bool(conds[pay], pre), "raise", fn.lineno)
                    for k, e in enumerate(c.get("on_raise", {}).get(pay, [])):
                        self.emit(f"after {pay} {k}: {e}", s, self.spec_bool(e, s), "raise", fn.lineno)
                else:
                    self.emit(f"no {pay} is raised", s, z3.BoolVal(False), "raise", fn.lineno)
            else:
                raise Unsupported(kind)
        nloops = c.get("nloops")
        if nloops is not None and len(self.loop_order) != nloops:
            raise Unsupported(f"loop structure changed: {len(self.loop_order)} loops, contract written for {nloops}")
        self.returns_seen = rets
        self.outcomes = outs
        return self.obls


class _MoreWrites(Exception):
    def __init__(self, roots):
        self.roots = roots


# ---------------------------------------------------------------- helpers
def _dedupe(pc):
    seen, out, keep = set(), [], []
    for h in pc:
        hs = h.children() if z3.is_and(h) else [h]
        for x in hs:
            if z3.is_true(x):
                continue
            if z3.is_quantifier(x):
                vs = [z3.Const(f"bv{i}", x.var_sort(i)) for i in range(x.num_vars())]
                b = z3.substitute_vars(x.body(), *reversed(vs))
                keep.append(b)
                k = ("q", b.get_id(), x.is_forall(), x.num_vars(), x.num_patterns())
            else:
                k = x.get_id()
            if k not in seen:
                seen.add(k)
                out.append(x)
    return out


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return f"{b}.{node.attr}" if b else None
    return None


def norm_index(i, n):
    i = z3.simplify(i)
    if z3.is_int_value(i):
        return i if i.as_long() >= 0 else z3.simplify(n + i)
    if _nonneg(i):
        return i
    return z3.If(i < 0, n + i, i) if not _likely_nonneg(i) else i


def _likely_nonneg(i):
    return False


def _nonneg(z):
    if z3.is_int_value(z):
        return z.as_long() >= 0
    if z3.is_app(z) and z.decl().name().endswith("_len"):
        return True
    if z3.is_app(z) and z.decl().name().endswith("_n") and z.num_args() == 1:
        return True
    if z3.is_app(z) and z.num_args() == 0 and str(z).split("!")[0] in ("n", "slen", "replen"):
        return True
    return False


def _path_cmp(p, q):
    """relation of the written path p to another path q: 'distinct' (provably), 'shorter' (p strictly extends q: write inside), 'hit'"""
    for (k1, a), (k2, b) in zip(p, q):
        if a is None or b is None:
            continue
        if isinstance(a, int) or isinstance(b, int):
            if a != b:
                return "distinct"
            continue
        if a.eq(b):
            continue
        d = z3.simplify(a == b)
        if z3.is_false(d):
            return "distinct"
        return "hit"
    return "shorter" if len(p) > len(q) else "hit"


def _own_nodes(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.GeneratorExp)):
                continue
            stack.append(c)


def _assigned_names(node):
    out = set()
    body = list(node.body) + list(node.orelse)
    if isinstance(node, (ast.For, ast.AsyncFor)):
        body.append(node.target)
    else:
        body.append(node.test)
    for s in body:
        stack = [s]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
                for c in ast.walk(n):
                    if isinstance(c, ast.NamedExpr):
                        out.add(c.target.id)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            stack.extend(ast.iter_child_nodes(n))
    return out


def _has_quant(x):
    seen = set()
    st = [x]
    while st:
        y = st.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if z3.is_quantifier(y):
            return True
        st.extend(y.children())
    return False


def _patternable(x):
    bad = (z3.Z3_OP_ITE, z3.Z3_OP_CONST_ARRAY)
    st = [x]
    while st:
        y = st.pop()
        if z3.is_quantifier(y):
            return False
        if z3.is_app(y) and y.decl().kind() in bad:
            return False
        st.extend(y.children())
    return True


def _find_pat(z, i):
    """a subterm usable as a trigger for the bound variable i"""
    best = None
    st = [z]
    seen = set()
    while st:
        y = st.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_SELECT and y.arg(1).eq(i) and _patternable(y):
            best = y
        if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED and y.num_args() and any(a.eq(i) for a in y.children()):
            best = best if best is not None else y
        if not z3.is_quantifier(y):
            st.extend(y.children())
    return best


def _collect_fresh(x, out):
    st = [x]
    seen = set()
    while st:
        y = st.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in str(y):
            if not any(y.eq(o) for o in out):
                out.add(y)
        if z3.is_quantifier(y):
            st.append(y.body())
        else:
            st.extend(y.children())


def _is_sel_of(x, c, i):
    return z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and (x.arg(0).eq(c))


def _split_types(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
            continue
        depth += ch == "["
        depth -= ch == "]"
        cur += ch
    out.append(cur)
    return out
