"""Calls, builtins, container methods, modular contracts, specification functions and proved lemma schemes."""
from __future__ import annotations
import ast
import z3
from . import ty
from .ty import T, INT, BOOL, REAL, STR, NONE, Unsupported, List, Tup, Opt, U
from .engine import V, Alias, Meta, Seq, MTuple, Lam, GenExp, Py, Poly, dotted, _nonneg, _own_nodes, _patternable


class FuncSpec:
    """a function of /repo together with its contract"""

    def __init__(self, id, file, qual, contract, props=()):
        self.id, self.file, self.qual, self.contract, self.props = id, file, qual, contract, list(props)
        self.modtree = self.fn = self.owner = None


class SumFn:
    """sigma over the first n elements of an array: name(arr, n, *params) = sum_{i<n} weight(arr[i], *params)"""

    def __init__(self, name, et, ptypes, rt, weight):
        self.name, self.et, self.pt, self.rt, self.weight = name, ty.parse(et), [ty.parse(p) for p in ptypes], ty.parse(rt), weight
        self.f = None

    def fn(self):
        if self.f is None:
            self.f = z3.Function(self.name, z3.ArraySort(z3.IntSort(), ty.sort(self.et)), z3.IntSort(), *[ty.sort(p) for p in self.pt], ty.sort(self.rt))
        return self.f

    def w(self, e, ps):
        return self.weight(V(self.et, e), *[V(t, p) for t, p in zip(self.pt, ps)])


class DSumFn:
    """sigma over the first n keys of a dictionary: name(keys, val, n, *params)"""

    def __init__(self, name, kt, vt, ptypes, rt, weight):
        self.name, self.kt, self.vt = name, ty.parse(kt), ty.parse(vt)
        self.pt, self.rt, self.weight = [ty.parse(p) for p in ptypes], ty.parse(rt), weight
        self.f = None

    def fn(self):
        if self.f is None:
            self.f = z3.Function(self.name, z3.ArraySort(z3.IntSort(), ty.sort(self.kt)), z3.ArraySort(ty.sort(self.kt), ty.sort(self.vt)),
                                 z3.IntSort(), *[ty.sort(p) for p in self.pt], ty.sort(self.rt))
        return self.f

    def w(self, k, v, ps):
        return self.weight(V(self.kt, k), V(self.vt, v), *[V(t, p) for t, p in zip(self.pt, ps)])


class Library:
    def __init__(self):
        self.by_qual = {}       # (file, qual) -> FuncSpec
        self.by_id = {}
        self.attrs = {}
        self.truthy = set()
        self.ufuncs = {}
        self.inject, self.views = {}, {}      # (type, union type) -> name of the injection; union type -> (name, list type) of its elements
        self.class_of = {}
        self.custom_eq = {}
        self.sums = {}
        self.dsums = {}
        self.defs = {}          # non-recursive specification macros: name -> (params, expr)
        self._spec_cache = {}
        self._lt = {}
        self.loader = None
        self.dhist = {}
        self.cdef = {}
        self.ahist = {}

    # ------------------------------------------------------------------ registry
    def add(self, fs):
        self.by_qual[(fs.file, fs.qual)] = fs
        self.by_id[fs.id] = fs

    def parse_spec(self, s):
        if s not in self._spec_cache:
            self._spec_cache[s] = ast.parse(s.strip(), mode="eval")
        return self._spec_cache[s]

    def models_attr(self, c):
        return c.get("attr_models", {})

    def lt(self, E, t):
        """the order of values of an uninterpreted sort: an arbitrary strict weak order, fixed per sort"""
        f = z3.Function(f"lt_{t}", ty.sort(t), ty.sort(t), z3.BoolSort())
        if str(t) not in self._lt:
            self._lt[str(t)] = f
        return f

    def order_axioms(self, used):
        out = []
        for t in used:
            pass
        return out

    # ------------------------------------------------------------------ spec functions
    def spec_call(self, E, name, args, st):
        if name in self.defs:
            params, expr = self.defs[name]
            return E.sp(self.parse_spec(expr), st, dict(zip(params, args)))
        if name in self.sums:
            s = self.sums[name]
            a = args[0]
            if isinstance(a, (Seq, MTuple, Poly)):
                a = E.coerce(a, List(s.et), st)
            if a.t.kind == "Opt":
                a = V(a.t.args[0], ty.unopt(a.t, a.z))
            if a.t.kind == "Iter":
                arr, n = ty.it_arr(a.t, a.z), ty.it_n(a.t, a.z)
            else:
                arr, n = ty.l_arr(a.t, a.z), ty.l_len(a.t, a.z)
            rest = args[1:]
            if len(rest) > len(s.pt):
                n = E.coerce(rest[0], INT, st).z
                rest = rest[1:]
            ps = [E.coerce(x, t, st).z for x, t in zip(rest, s.pt)]
            return V(s.rt, s.fn()(arr, n, *ps))
        if name in self.dsums:
            s = self.dsums[name]
            a = args[0]
            if a.t.kind == "Opt":
                a = V(a.t.args[0], ty.unopt(a.t, a.z))
            n = ty.d_n(a.t, a.z)
            rest = args[1:]
            if len(rest) > len(s.pt):
                n = E.coerce(rest[0], INT, st).z
                rest = rest[1:]
            ps = [E.coerce(x, t, st).z for x, t in zip(rest, s.pt)]
            return V(s.rt, s.fn()(ty.d_keys(a.t, a.z), ty.d_val(a.t, a.z), n, *ps))
        sf = E.c.get("spec_funcs", {}).get(name)
        if sf is None and name in getattr(self, "ufuncs", {}):
            sf = self.ufuncs[name]
        if sf is not None:
            ats, rt = [ty.parse(x) for x in sf[0]], ty.parse(sf[1])
            zs = [E.coerce(a, t, st).z for a, t in zip(args, ats)]
            return V(rt, E.func(name, ats, rt)(*zs))
        if name.startswith("lem_"):
            return self.lemma_instance(E, name, args, st)
        if name == "isinst":
            return V(BOOL, z3.BoolVal(True))
        if name == "posof":     # position of a key in the insertion order of a dictionary
            d = args[0]
            return V(INT, z3.Select(ty.d_idx(d.t, d.z), E.coerce(args[1], d.t.args[0], st).z))
        if name == "sameseq":   # the same underlying sequence of an iterator
            a, b = args
            return V(BOOL, z3.And(ty.it_arr(a.t, a.z) == ty.it_arr(b.t, b.z), ty.it_n(a.t, a.z) == ty.it_n(b.t, b.z)))
        if name == "setof":
            return E.to_set(args[0], st)
        raise Unsupported(f"unknown specification function {name}")

    def sum_term(self, E, name, l, n, ps, st):
        return self.spec_call(E, name, [l, V(INT, n)] + ps, st).z

    def lemma_instance(self, E, name, args, st):
        """instances of proved lemmas: lem_zero(list, 'sum', a, b, *params), lem_mono, lem_eq(l1, 's1', l2, 's2', n)"""
        nm = lambda v: [k for k, c in E.strlits.items() if c.eq(v.z)][0]
        m = ty.fresh("m", z3.IntSort())
        if name in ("lem_zero", "lem_mono", "lem_le1"):
            l, s = args[0], self.sums.get(nm(args[1])) or self.dsums[nm(args[1])]
            a, b = (E.coerce(x, INT, st).z for x in args[2:4])
            ps = list(args[4:])
            pz = [E.coerce(x, t, st).z for x, t in zip(ps, s.pt)]
            if isinstance(s, DSumFn):
                k = z3.Select(ty.d_keys(l.t, l.z), m)
                w = s.w(k, z3.Select(ty.d_val(l.t, l.z), k), pz)
                pat = k
            else:
                if isinstance(l, V) and l.t.kind == "Opt":
                    l = V(l.t.args[0], ty.unopt(l.t, l.z))
                pat = z3.Select(ty.l_arr(l.t, l.z), m)
                w = s.w(pat, pz)
            sa, sb = self.sum_term(E, s.name, l, a, ps, st), self.sum_term(E, s.name, l, b, ps, st)
            rng = z3.And(a <= m, m < b)
            if name == "lem_zero":
                return V(BOOL, z3.Implies(z3.And(0 <= a, a <= b, z3.ForAll([m], z3.Implies(rng, w == 0))), sa == sb))
            if name == "lem_mono":
                return V(BOOL, z3.Implies(z3.And(0 <= a, a <= b, z3.ForAll([m], z3.Implies(rng, w >= 0))), sa <= sb))
            lt1 = z3.ForAll([m], z3.Implies(rng, w <= 1))
            return V(BOOL, z3.Implies(z3.And(0 <= a, a <= b, lt1), sb <= sa + (b - a)))
        if name == "lem_eq":
            l1, l2 = args[0], args[2]
            s1 = self.sums.get(nm(args[1])) or self.dsums[nm(args[1])]
            s2 = self.sums.get(nm(args[3])) or self.dsums[nm(args[3])]
            n = E.coerce(args[4], INT, st).z

            def wt(s, l):
                if isinstance(s, DSumFn):
                    k = z3.Select(ty.d_keys(l.t, l.z), m)
                    return s.w(k, z3.Select(ty.d_val(l.t, l.z), k), [])
                return s.w(z3.Select(ty.l_arr(l.t, l.z), m), [])
            t1, t2 = self.sum_term(E, s1.name, l1, n, [], st), self.sum_term(E, s2.name, l2, n, [], st)
            return V(BOOL, z3.Implies(z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < n), wt(s1, l1) == wt(s2, l2))), t1 == t2))
        if name == "lem_shift":     # lem_shift(l1, 's1', a, l2, 's2', n, *params of s1): the weights of l1 from a on are those of l2: so are the sums
            s1, s2 = self.sums[nm(args[1])], self.sums[nm(args[4])]
            a, n = E.coerce(args[2], INT, st).z, E.coerce(args[5], INT, st).z
            ps = [E.coerce(x, t, st).z for x, t in zip(args[6:], s1.pt)]
            ar = lambda l: ty.it_arr(l.t, l.z) if l.t.kind == "Iter" else ty.l_arr(l.t, l.z)
            a1, a2 = ar(args[0]), ar(args[3])
            same = z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < n), s1.w(z3.Select(a1, a + m), ps) == s2.w(z3.Select(a2, m), [])))
            k = ty.fresh("m", z3.IntSort())
            concl = s1.fn()(a1, a + k, *ps) - s1.fn()(a1, a, *ps) == s2.fn()(a2, k)
            return V(BOOL, z3.Implies(z3.And(a >= 0, same), z3.And(ty.forall([k], z3.Implies(z3.And(0 <= k, k <= n), concl), [s2.fn()(a2, k)]),
                                                                   z3.Implies(n >= 0, z3.substitute(concl, (k, n))))))
        if name == "lem_keys":      # sum over a dictionary == sum over the list of its keys, weights read from the dictionary
            d, sd, sl = args[0], self.dsums[nm(args[1])], self.sums[nm(args[2])]
            keys, n, val = ty.d_keys(d.t, d.z), ty.d_n(d.t, d.z), ty.d_val(d.t, d.z)
            k = z3.Select(keys, m)
            same = z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < n), sd.w(k, z3.Select(val, k), []) == sl.w(k, [d.z])))
            return V(BOOL, z3.Implies(same, sd.fn()(keys, val, n) == sl.fn()(keys, n, d.z)))
        if name == "lem_lin":       # sA + sB == c * sC when the weights satisfy it element by element
            def part(l, s):
                s = self.dsums[nm(s)] if nm(s) in self.dsums else self.sums[nm(s)]
                R = lambda z: z3.ToReal(z) if s.rt is INT else z
                if isinstance(s, DSumFn):
                    ks, vs = ty.d_keys(l.t, l.z), ty.d_val(l.t, l.z)
                    k = z3.Select(ks, m)
                    return R(s.w(k, z3.Select(vs, k), [])), lambda n: R(s.fn()(ks, vs, n))
                ar = ty.l_arr(l.t, l.z)
                return R(s.w(z3.Select(ar, m), [])), lambda n: R(s.fn()(ar, n))
            (wa, fa), (wb, fb), (wc, fc) = part(args[0], args[1]), part(args[2], args[3]), part(args[5], args[6])
            c, n = E.coerce(args[4], REAL, st).z, E.coerce(args[7], INT, st).z
            return V(BOOL, z3.Implies(z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < n), wa + wb == E.mul(c, wc))), fa(n) + fb(n) == E.mul(c, fc(n))))
        if name == "lem_subset":    # a set inside another one is not larger, and equal to it when it has as many elements
            d, a = (V(x.t.args[0], ty.unopt(x.t, x.z)) if x.t.kind == "Opt" else x for x in args[:2])
            k = ty.fresh("k", ty.sort(d.t.args[0]))
            ind, ina = z3.Select(ty.d_dom(d.t, d.z), k), z3.Select(ty.d_dom(a.t, a.z), k)
            nd_, na_ = ty.d_n(d.t, d.z), ty.d_n(a.t, a.z)
            return V(BOOL, z3.Implies(ty.forall([k], z3.Implies(ind, ina), [ind]),
                                      z3.And(nd_ <= na_, z3.Implies(nd_ >= na_, ty.forall([k], z3.Implies(ina, ind), [ina])))))
        if name in ("lem_diff", "lem_sle"):
            def part2(l, s):
                if isinstance(l, V) and l.t.kind == "Opt":
                    l = V(l.t.args[0], ty.unopt(l.t, l.z))
                s = self.dsums[nm(s)] if nm(s) in self.dsums else self.sums[nm(s)]
                if isinstance(s, DSumFn):
                    ks, vs = ty.d_keys(l.t, l.z), ty.d_val(l.t, l.z)
                    return (lambda j: s.w(z3.Select(ks, j), z3.Select(vs, z3.Select(ks, j)), [])), lambda n: s.fn()(ks, vs, n)
                ar = ty.l_arr(l.t, l.z)
                return (lambda j: s.w(z3.Select(ar, j), [])), lambda n: s.fn()(ar, n)
            R = lambda z: z3.ToReal(z) if z.sort().kind() == z3.Z3_INT_SORT else z
            if name == "lem_diff":      # lists that differ at index i at most
                (wa, fa), (wb, fb) = part2(args[0], args[1]), part2(args[2], args[3])
                n, i = (E.coerce(x, INT, st).z for x in args[4:6])
                same = z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < n, m != i), wa(m) == wb(m)))
                return V(BOOL, z3.Implies(same, fb(n) - fa(n) == z3.If(z3.And(0 <= i, i < n), wb(i) - wa(i), 0)))
            (wa, fa), (wb, fb) = part2(args[0], args[1]), part2(args[3], args[4])     # a <= c * b element by element
            c, n = E.coerce(args[2], REAL, st).z, E.coerce(args[5], INT, st).z
            le = z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < n), R(wa(m)) <= E.mul(c, R(wb(m)))))
            return V(BOOL, z3.Implies(le, R(fa(n)) <= E.mul(c, R(fb(n)))))
        if name in ("lem_upd", "lem_full"):
            l, s = args[0], self.sums[nm(args[1])]
            n = E.coerce(args[2], INT, st).z
            arr = ty.l_arr(l.t, l.z)
            zs = lambda ps: [E.coerce(x, t, st).z for x, t in zip(ps, s.pt)]
            k = len(s.pt)
            if name == "lem_upd":       # two parameter tuples whose weights differ at index i at most
                i = E.coerce(args[3], INT, st).z
                p, q = zs(args[4:4 + k]), zs(args[4 + k:4 + 2 * k])
                wp, wq = (lambda j: s.w(z3.Select(arr, j), p)), (lambda j: s.w(z3.Select(arr, j), q))
                same = z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < n, m != i), wp(m) == wq(m)))
                return V(BOOL, z3.Implies(z3.And(0 <= i, i < n, same), s.fn()(arr, n, *q) - s.fn()(arr, n, *p) == wq(i) - wp(i)))
            p = zs(args[3:3 + k])       # all weights <= 1 and the sum reaches n: all are 1
            w = s.w(z3.Select(arr, m), p)
            le = z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < n), w <= 1))
            return V(BOOL, z3.Implies(z3.And(le, s.fn()(arr, n, *p) >= n), z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < n), w == 1))))
        if name in ("lem_pos", "lem_scale"):
            def auto(l):
                if isinstance(l, V) and l.t.kind == "Opt":
                    l = V(l.t.args[0], ty.unopt(l.t, l.z))
                if not (isinstance(l, V) and l.t.kind in ("List", "Nd")):
                    raise Unsupported(name)
                s = next(x for x in self.sums.values() if x.name.startswith("sum_") and x.et is l.t.args[0] and not x.pt)
                ar, n = ty.l_arr(l.t, l.z), ty.l_len(l.t, l.z)
                return s.w(z3.Select(ar, m), []), s.fn()(ar, n), n
            if name == "lem_pos":       # weights >= 0 and one of them > 0: the sum is > 0
                w, s, n = auto(args[0])
                i2 = ty.fresh("m", z3.IntSort())
                w2 = z3.substitute(w, (m, i2))
                return V(BOOL, z3.Implies(z3.And(z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < n), w >= 0)), z3.Exists([i2], z3.And(0 <= i2, i2 < n, w2 > 0))), s > 0))
            (wa, sa, na), (wb, sb, nb) = auto(args[0]), auto(args[2])   # a == c * b element by element
            c = E.coerce(args[1], REAL, st).z
            R = lambda z: z3.ToReal(z) if z.sort().kind() == z3.Z3_INT_SORT else z
            return V(BOOL, z3.Implies(z3.And(na == nb, z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < na), R(wa) == c * R(wb)))), R(sa) == c * R(sb)))
        raise Unsupported(name)

    # ------------------------------------------------------------------ lemma instantiation
    def instantiate(self, hyps, goal, depth=5, udepth=2):
        """ground instances of the definitions of sums and of the proved store/ite lemma schemes"""
        defs = {}
        for h in hyps:
            if z3.is_eq(h):
                a, b = h.arg(0), h.arg(1)
                if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not a.eq(b):
                    defs.setdefault(a.get_id(), b)
        if all(s.f is None for s in self.sums.values()) and all(s.f is None for s in self.dsums.values()):
            return []
        by_decl = dict(self.sums)       # all of them: the weights of one sum may be another sum, not used by name so far
        by_decl.update(self.dsums)
        facts, seen, work = [], set(), []

        def scan(x, lvl):
            stack, vis = [x], set()
            while stack:
                y = stack.pop()
                if y.get_id() in vis or z3.is_quantifier(y) or z3.is_var(y):
                    continue
                vis.add(y.get_id())
                if z3.is_app(y):
                    if y.num_args() and y.decl().name() in by_decl and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        if y.get_id() not in seen:
                            seen.add(y.get_id())
                            keep.append(y)
                            work.append((y, lvl))
                    stack.extend(y.children())
        keep = []
        for h in hyps:
            scan(h, 0)
        scan(goal, 0)

        def resolve(x, steps=6):
            while steps and z3.is_const(x) and x.get_id() in defs:
                x = defs[x.get_id()]
                steps -= 1
            return x
        def find_sel(z, fuel=12):
            """a selection from a store inside an argument of a sum: accessors and selections are looked through"""
            while fuel and z3.is_app(z) and z.num_args():
                if z3.is_select(z):
                    inner = find_sel(z.arg(0), fuel - 1)
                    if inner is not None:
                        return inner
                    return z if _is_store(resolve(z.arg(0))) else None
                if z.num_args() != 1:
                    return None
                z = z.arg(0)
                fuel -= 1
            return None

        def rebuild(z, x, v):
            """z with x replaced by v; accessors of constructors and selections of just stored elements are reduced"""
            if z.eq(x):
                return v
            if z3.is_select(z):
                a = rebuild(z.arg(0), x, v)
                if a.eq(z.arg(0)):
                    return z
                if _is_store(a) and a.arg(1).eq(z.arg(1)):
                    return a.arg(2)
                return z3.Select(a, z.arg(1))
            if z3.is_app(z) and z.num_args() == 1 and z.decl().kind() == z3.Z3_OP_DT_ACCESSOR:
                a = rebuild(z.arg(0), x, v)
                if a.eq(z.arg(0)):
                    return z
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
                    srt = a.sort()
                    for k in range(srt.num_constructors()):
                        if srt.constructor(k).eq(a.decl()):
                            for q in range(a.num_args()):
                                if srt.accessor(k, q).eq(z.decl()):
                                    return a.arg(q)
                return z.decl()(a)
            return z

        def at_store(t, f, lvl):
            """a sum over an element of an array that was just updated: over the new element, or over the old one"""
            x = find_sel(t.arg(0))
            if x is None or lvl >= depth:
                return []
            sto = resolve(x.arg(0))
            a, i, v = sto.arg(0), sto.arg(1), sto.arg(2)
            o1, o2 = (f(*[rebuild(y, x, w) for y in t.children()]) for w in (v, z3.Select(a, x.arg(1))))
            facts.append(z3.Implies(x.arg(1) == i, t == o1))
            facts.append(z3.Implies(x.arg(1) != i, t == o2))
            return [(o1, lvl + 1), (o2, lvl + 1)]
        ul = {}
        ulv = lambda t: ul.get(t.get_id(), 0)
        count = 0
        while work and count < 400:
            t, lvl = work.pop(0)
            count += 1
            s = by_decl[t.decl().name()]
            f = s.fn()
            isd = isinstance(s, DSumFn)
            if isd:
                keys, val, n = t.arg(0), t.arg(1), t.arg(2)
                ps = [t.arg(i) for i in range(3, t.num_args())]
                new = []
                zero = z3.RealVal(0) if s.rt is REAL else z3.IntVal(0)
                nn = z3.simplify(n - 1)
                prev = f(keys, val, nn, *ps)
                k = z3.Select(keys, nn)
                facts.append(z3.Implies(n <= 0, t == zero))
                if ulv(t) < udepth and not (z3.is_int_value(n) and n.as_long() <= 0):
                    facts.append(z3.Implies(n > 0, t == prev + s.w(k, z3.Select(val, k), ps)))
                    ul.setdefault(prev.get_id(), ulv(t) + 1)
                    new.append((prev, lvl + 1))
                rk, rv = resolve(keys), resolve(val)
                if _is_store(rk):
                    a, i, v = rk.arg(0), rk.arg(1), rk.arg(2)
                    o = f(a, val, n, *ps)
                    facts.append(z3.Implies(z3.Not(z3.And(0 <= i, i < n)), t == o))
                    new.append((o, lvl + 1))
                elif _is_ite(rk):
                    c, a, b = rk.children()
                    o1, o2 = f(a, val, n, *ps), f(b, val, n, *ps)
                    facts.append(t == z3.If(c, o1, o2))
                    new += [(o1, lvl + 1), (o2, lvl + 1)]
                h = self.dhist.get(val.get_id())
                if h is not None and _is_store(rv):
                    h = h[1]
                    (odk, odn, odd, odv, odi, k0, wff) = h
                    v0, k1, vv = rv.arg(0), rv.arg(1), rv.arg(2)
                    # sum over the old keys with the new value map (keys are distinct in a dictionary)
                    o = f(odk, v0, odn, *ps)
                    tn = f(odk, val, odn, *ps)
                    delta = s.w(k1, vv, ps) - s.w(k1, z3.Select(v0, k1), ps)
                    facts.append(z3.Implies(z3.And(*wff), tn == o + z3.If(z3.Select(odd, k1), delta, zero)))
                    if lvl < depth:
                        scan(delta, lvl + 1)        # weights that are sums themselves
                    new += [(o, lvl + 1), (tn, lvl + 1)]
                    # partial sums
                    pi = f(odk, val, n, *ps)
                    po = f(odk, v0, n, *ps)
                    facts.append(z3.Implies(z3.And(*wff, n <= odn),
                                            pi == po + z3.If(z3.And(z3.Select(odd, k1), z3.Select(odi, k1) < n), delta, zero)))
                    new += [(pi, lvl + 1), (po, lvl + 1)]
            else:
                arr, n = t.arg(0), t.arg(1)
                ps = [t.arg(i) for i in range(2, t.num_args())]
                new = []
                zero = z3.RealVal(0) if s.rt is REAL else z3.IntVal(0)
                nn = z3.simplify(n - 1)
                prev = f(arr, nn, *ps)
                facts.append(z3.Implies(n <= 0, t == zero))
                if ulv(t) < udepth and not (z3.is_int_value(n) and n.as_long() <= 0):
                    facts.append(z3.Implies(n > 0, t == prev + s.w(z3.Select(arr, nn), ps)))
                    ul.setdefault(prev.get_id(), ulv(t) + 1)
                    new.append((prev, lvl + 1))
                ra = resolve(arr)
                if _is_store(ra):
                    a, i, v = ra.arg(0), ra.arg(1), ra.arg(2)
                    o = f(a, n, *ps)
                    facts.append(t == o + z3.If(z3.And(0 <= i, i < n), s.w(v, ps) - s.w(z3.Select(a, i), ps), zero))
                    new.append((o, lvl + 1))
                elif ra.get_id() in self.ahist:
                    h = self.ahist[ra.get_id()]
                    if h[0] == "slice":
                        _, _, src, lo, ln = h
                        o1, o2 = f(src, z3.simplify(lo + n), *ps), f(src, lo, *ps)
                        facts.append(z3.Implies(z3.And(0 <= n, n <= ln, lo >= 0), t == o1 - o2))
                        new += [(o1, lvl + 1), (o2, lvl + 1)]
                    elif h[0] == "concat":
                        _, _, a, la, b, lb = h
                        o1, o2, o3 = f(a, n, *ps), f(a, la, *ps), f(b, z3.simplify(n - la), *ps)
                        facts.append(z3.Implies(n <= la, t == o1))
                        facts.append(z3.Implies(z3.And(la >= 0, n >= la, n <= la + lb), t == o2 + o3))
                        new += [(o1, lvl + 1), (o2, lvl + 1), (o3, lvl + 1)]
                    elif h[0] == "perm":
                        _, _, src, n0 = h
                        o1 = f(src, n0, *ps)
                        facts.append(z3.Implies(n == n0, t == o1))
                        new.append((o1, lvl + 1))
                    elif h[0] == "remove":
                        _, _, a, i = h
                        o1, o2 = f(a, n, *ps), f(a, z3.simplify(n + 1), *ps)
                        facts.append(z3.Implies(n <= i, t == o1))
                        facts.append(z3.Implies(z3.And(0 <= i, i <= n), t == o2 - s.w(z3.Select(a, i), ps)))
                        new += [(o1, lvl + 1), (o2, lvl + 1)]
                elif _is_ite(ra):
                    c, a, b = ra.children()
                    o1, o2 = f(a, n, *ps), f(b, n, *ps)
                    facts.append(t == z3.If(c, o1, o2))
                    new += [(o1, lvl + 1), (o2, lvl + 1)]
                else:
                    new += at_store(t, f, lvl)
            if lvl < depth:
                for x, l in new:
                    if x.get_id() not in seen:
                        seen.add(x.get_id())
                        keep.append(x)
                        work.append((x, l))
        self._keep = keep
        return facts

    extra_lemmas = []      # [(name, hyps, goal)]: elementary facts used as lemma_axioms, proved on every run

    def lemmas(self):
        """the schemes used by instantiate/concat_facts, proved by induction for an arbitrary weight function"""
        I = z3.IntSort()
        E_ = z3.DeclareSort("LE")
        A = z3.ArraySort(I, E_)
        w = z3.Function("lw", E_, I)
        S = z3.Function("lS", A, I, I)
        a, b, c = z3.Consts("la lb lc", A)
        n, i, m = z3.Ints("ln li lm")
        v = z3.Const("lv", E_)

        def unfold(arr, k):
            return z3.And(z3.Implies(k <= 0, S(arr, k) == 0), z3.Implies(k > 0, S(arr, k) == S(arr, k - 1) + w(arr[k - 1])))
        out = []
        st = z3.Store(a, i, v)
        claim = lambda k: S(st, k) == S(a, k) + z3.If(z3.And(0 <= i, i < k), w(v) - w(a[i]), 0)
        out.append(("lemma store (base)", [unfold(st, n), unfold(a, n), n <= 0], claim(n)))
        out.append(("lemma store (step)", [unfold(st, n), unfold(a, n), n > 0, claim(n - 1)], claim(n)))
        # concatenation
        j = z3.Int("lj")
        pre = [n >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), c[j] == a[j])),
               z3.ForAll([j], z3.Implies(j >= 0, c[n + j] == b[j]))]
        cl0 = lambda k: S(c, k) == S(a, k)
        out.append(("lemma concat prefix (base)", pre + [unfold(c, m), unfold(a, m), m <= 0], cl0(m)))
        out.append(("lemma concat prefix (step)", pre + [unfold(c, m), unfold(a, m), m > 0, m <= n, cl0(m - 1)], cl0(m)))
        cl1 = lambda k: S(c, n + k) == S(a, n) + S(b, k)
        out.append(("lemma concat suffix (base)", pre + [cl0(n), unfold(b, z3.IntVal(0))], cl1(z3.IntVal(0))))
        out.append(("lemma concat suffix (step)", pre + [m > 0, unfold(c, n + m), unfold(b, m), cl1(m - 1), c[n + m - 1] == b[m - 1]], cl1(m)))
        lo = z3.Int("llo")
        spre = [z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), c[j] == a[lo + j])), lo >= 0]
        scl = lambda k: S(c, k) == S(a, lo + k) - S(a, lo)
        out.append(("lemma slice (base)", spre + [unfold(c, z3.IntVal(0))], scl(z3.IntVal(0))))
        out.append(("lemma slice (step)", spre + [m > 0, m <= n, unfold(c, m), unfold(a, lo + m), scl(m - 1), c[m - 1] == a[lo + m - 1]], scl(m)))
        rpre = [z3.ForAll([j], c[j] == z3.If(j < i, a[j], a[j + 1])), i >= 0]
        rcl = lambda k: z3.And(z3.Implies(k <= i, S(c, k) == S(a, k)), z3.Implies(k >= i, S(c, k) == S(a, k + 1) - w(a[i])))
        out.append(("lemma remove (base)", rpre + [unfold(c, z3.IntVal(0)), unfold(a, z3.IntVal(0)), unfold(a, z3.IntVal(1))], rcl(z3.IntVal(0))))
        out.append(("lemma remove (step)", rpre + [m > 0, unfold(c, m), unfold(a, m), unfold(a, m + 1), rcl(m - 1)], rcl(m)))
        p = z3.Int("lp")
        zp = [p >= 0, m > p]
        rng = lambda cond: z3.ForAll([j], z3.Implies(z3.And(p <= j, j < m), cond(w(a[j]))))
        for nm, cond, concl in (("zero", lambda x: x == 0, lambda q: S(a, p) == S(a, q)), ("mono", lambda x: x >= 0, lambda q: S(a, p) <= S(a, q)),
                                ("le1", lambda x: x <= 1, lambda q: S(a, q) <= S(a, p) + (q - p))):
            out.append((f"lemma {nm} (base)", [p >= 0], concl(p)))
            out.append((f"lemma {nm} (step)", zp + [rng(cond), unfold(a, m), concl(m - 1)], concl(m)))
        w2 = z3.Function("lw2", E_, I)
        S2 = z3.Function("lS2", A, I, I)
        un2 = z3.And(z3.Implies(m <= 0, S2(b, m) == 0), z3.Implies(m > 0, S2(b, m) == S2(b, m - 1) + w2(b[m - 1])))
        eqp = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), w(a[j]) == w2(b[j])))
        out.append(("lemma eq (base)", [m <= 0, unfold(a, m), un2], S(a, m) == S2(b, m)))
        out.append(("lemma eq (step)", [m > 0, unfold(a, m), un2, eqp, S(a, m - 1) == S2(b, m - 1)], S(a, m) == S2(b, m)))
        sh = lambda q: S(a, i + q) - S(a, i) == S2(b, q)
        un2q = lambda q: z3.And(z3.Implies(q <= 0, S2(b, q) == 0), z3.Implies(q > 0, S2(b, q) == S2(b, q - 1) + w2(b[q - 1])))
        shp = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), w(a[i + j]) == w2(b[j])))
        out.append(("lemma shift (base)", [i >= 0, un2q(z3.IntVal(0))], sh(z3.IntVal(0))))
        out.append(("lemma shift (step)", [i >= 0, m > 0, m <= n, unfold(a, i + m), un2q(m), shp, sh(m - 1), w(a[i + (m - 1)]) == w2(b[m - 1])], sh(m)))
        R3 = [z3.Function(f"lr{q}", E_, z3.RealSort()) for q in range(3)]
        F3 = [z3.Function(f"lF{q}", A, I, z3.RealSort()) for q in range(3)]
        abc, cc = [a, b, c], z3.Real("lcoef")
        unr = z3.And(*[z3.And(z3.Implies(m <= 0, F(x, m) == 0), z3.Implies(m > 0, F(x, m) == F(x, m - 1) + r(x[m - 1]))) for F, r, x in zip(F3, R3, abc)])
        linp = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), R3[0](a[j]) + R3[1](b[j]) == cc * R3[2](c[j])))
        lc_ = lambda q: F3[0](a, q) + F3[1](b, q) == cc * F3[2](c, q)
        out.append(("lemma lin (base)", [m <= 0, unr], lc_(m)))
        out.append(("lemma lin (step)", [m > 0, unr, linp, lc_(m - 1)], lc_(m)))
        pos = lambda q: z3.And(S(a, q) >= 0, z3.Implies(z3.Exists([i], z3.And(0 <= i, i < q, w(a[i]) > 0)), S(a, q) > 0))
        nn = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), w(a[j]) >= 0))
        out.append(("lemma pos (base)", [m <= 0, unfold(a, m)], pos(m)))
        out.append(("lemma pos (step)", [m > 0, nn, unfold(a, m), pos(m - 1)], pos(m)))
        scp = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), R3[0](a[j]) == cc * R3[1](b[j])))
        out.append(("lemma scale (base)", [m <= 0, unr], F3[0](a, m) == cc * F3[1](b, m)))
        out.append(("lemma scale (step)", [m > 0, unr, scp, F3[0](a, m - 1) == cc * F3[1](b, m - 1)], F3[0](a, m) == cc * F3[1](b, m)))
        slp = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), R3[0](a[j]) <= cc * R3[1](b[j])))
        out.append(("lemma sle (base)", [m <= 0, unr], F3[0](a, m) <= cc * F3[1](b, m)))
        out.append(("lemma sle (step)", [m > 0, unr, slp, F3[0](a, m - 1) <= cc * F3[1](b, m - 1)], F3[0](a, m) <= cc * F3[1](b, m)))
        dfp = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m, j != i), w(a[j]) == w2(b[j])))
        dfc = lambda q: S2(b, q) - S(a, q) == z3.If(z3.And(0 <= i, i < q), w2(b[i]) - w(a[i]), 0)
        out.append(("lemma diff (base)", [m <= 0, unfold(a, m), un2], dfc(m)))
        out.append(("lemma diff (step)", [m > 0, unfold(a, m), un2, dfp, dfc(m - 1)], dfc(m)))
        wu = z3.Function("lwu", E_, I)
        SU = z3.Function("lSu", A, I, I)
        unu = lambda q: z3.And(z3.Implies(q <= 0, SU(a, q) == 0), z3.Implies(q > 0, SU(a, q) == SU(a, q - 1) + wu(a[q - 1])))
        updp = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m, j != i), w(a[j]) == wu(a[j])))
        uc = lambda q: SU(a, q) - S(a, q) == z3.If(z3.And(0 <= i, i < q), wu(a[i]) - w(a[i]), 0)
        out.append(("lemma upd (base)", [m <= 0, unfold(a, m), unu(m)], uc(m)))
        out.append(("lemma upd (step)", [m > 0, unfold(a, m), unu(m), updp, uc(m - 1)], uc(m)))
        fle = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), w(a[j]) <= 1))
        fc = lambda q: z3.And(S(a, q) <= z3.If(q > 0, q, 0), z3.Implies(S(a, q) >= q, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < q), w(a[j]) == 1))))
        out.append(("lemma full (base)", [m <= 0, unfold(a, m)], fc(m)))
        out.append(("lemma full (step)", [m > 0, unfold(a, m), fle, fc(m - 1)], fc(m)))
        # dictionary sums
        K, W = z3.DeclareSort("LK"), z3.DeclareSort("LV")
        KA, VA = z3.ArraySort(I, K), z3.ArraySort(K, W)
        dw = z3.Function("ldw", K, W, I)
        D = z3.Function("lD", KA, VA, I, I)
        keys, val = z3.Const("lkeys", KA), z3.Const("lval", VA)
        dom, idx = z3.Const("ldom", z3.ArraySort(K, z3.BoolSort())), z3.Const("lidx", z3.ArraySort(K, I))
        k, x = z3.Const("lk", K), z3.Const("lx", W)
        kk = z3.Const("lkk", K)

        def du(vm, q):
            return z3.And(z3.Implies(q <= 0, D(keys, vm, q) == 0),
                          z3.Implies(q > 0, D(keys, vm, q) == D(keys, vm, q - 1) + dw(keys[q - 1], vm[keys[q - 1]])))
        wf = [z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(dom[keys[j]], idx[keys[j]] == j))),
              z3.ForAll([kk], z3.Implies(dom[kk], z3.And(0 <= idx[kk], idx[kk] < n, keys[idx[kk]] == kk)))]
        v2 = z3.Store(val, k, x)
        dc = lambda q: D(keys, v2, q) == D(keys, val, q) + z3.If(z3.And(dom[k], idx[k] < q), dw(k, x) - dw(k, val[k]), 0)
        out.append(("lemma dict store (base)", wf + [m <= 0, du(val, m), du(v2, m)], dc(m)))
        out.append(("lemma dict store (step)", wf + [m > 0, m <= n, du(val, m), du(v2, m), dc(m - 1)], dc(m)))
        keys2 = z3.Store(keys, i, k)

        def du2(ks, q):
            return z3.And(z3.Implies(q <= 0, D(ks, val, q) == 0),
                          z3.Implies(q > 0, D(ks, val, q) == D(ks, val, q - 1) + dw(ks[q - 1], val[ks[q - 1]])))
        kc = lambda q: z3.Implies(z3.Not(z3.And(0 <= i, i < q)), D(keys2, val, q) == D(keys, val, q))
        out.append(("lemma dict keys (base)", [m <= 0, du2(keys, m), du2(keys2, m)], kc(m)))
        out.append(("lemma dict keys (step)", [m > 0, du2(keys, m), du2(keys2, m), kc(m - 1)], kc(m)))
        # pigeonhole: an injective f: [0, pm) -> [0, pn) has pm <= pn; by induction on pn for all f and pm
        AI = z3.ArraySort(I, I)
        f, g = z3.Consts("pf pg", AI)
        pm, pn, x, y, z = z3.Ints("pm pn px py pz")
        inj = lambda f, m_, n_: z3.And(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < m_), z3.And(0 <= f[x], f[x] < n_))),
                                       z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < m_, 0 <= y, y < m_, f[x] == f[y]), x == y)))
        out.append(("lemma pigeonhole (base)", [pm >= 0, inj(f, pm, z3.IntVal(0))], pm <= 0))
        ih = lambda f, m_: z3.Implies(inj(f, m_, pn - 1), m_ <= pn - 1)
        out.append(("lemma pigeonhole (step, last value hit)", [pn > 0, pm > 0, inj(f, pm, pn), 0 <= z, z < pm, f[z] == pn - 1, g == z3.Store(f, z, f[pm - 1]), ih(g, pm - 1)], pm <= pn))
        out.append(("lemma pigeonhole (step, last value not hit)", [pn > 0, pm >= 0, inj(f, pm, pn), z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < pm), f[x] != pn - 1)), ih(f, pm)], pm <= pn))
        dt = ty.parse("Dict[LemK,Int]")
        D_, A_ = z3.Const("sd", ty.sort(dt)), z3.Const("sa", ty.sort(dt))
        kk, k3 = z3.Consts("sk sk3", ty.sort(dt.args[0]))
        wfs = ty.wf(dt, D_) + ty.wf(dt, A_)
        sub = z3.ForAll([k3], z3.Implies(ty.d_dom(dt, D_)[k3], ty.d_dom(dt, A_)[k3]))
        fd = z3.ForAll([x], f[x] == z3.If(x == ty.d_n(dt, D_), ty.d_idx(dt, A_)[kk], ty.d_idx(dt, A_)[ty.d_keys(dt, D_)[x]]), patterns=[f[x]])
        pig = lambda m_: z3.Implies(inj(f, m_, ty.d_n(dt, A_)), m_ <= ty.d_n(dt, A_))
        out.append(("lemma subset (size)", wfs + [sub, fd, pig(ty.d_n(dt, D_))], ty.d_n(dt, D_) <= ty.d_n(dt, A_)))
        out.append(("lemma subset (equal)", wfs + [sub, fd, pig(ty.d_n(dt, D_) + 1), ty.d_dom(dt, A_)[kk], z3.Not(ty.d_dom(dt, D_)[kk])], ty.d_n(dt, D_) < ty.d_n(dt, A_)))
        return out + list(self.extra_lemmas)

    # ------------------------------------------------------------------ calls
    def call(self, E, node, st):
        f = node.func
        dn = dotted(f)
        models = E.c.get("calls", {})
        if dn and dn in models:
            return self.model(E, models[dn], node, st)
        if isinstance(f, ast.Name):
            k = E.lookup(f.id, st)
            if k is not None and isinstance(st.env[k], Lam):
                return self.apply_lam(E, st.env[k], [E.ev1(a, st) for a in node.args], st)
            if k is not None and isinstance(st.env[k], Py):
                nm = st.env[k].name
                if nm in models:
                    return self.model(E, models[nm], node, st)
            h = getattr(self, "b_" + f.id, None)
            g = E.find_function(f.id)
            if g is None and h is not None:
                return h(E, node, st)
            if g is not None:
                return self.call_function(E, f.id, g, node, st)
            imp = self.imported(E, f.id)
            if imp is not None:
                fs, g, owner, mod = imp
                if fs is not None:
                    return self.call_contract(E, fs, node, st)
                args, kw = self.args(E, node, st)
                return E.inline_call(g, args, kw, st, node, owner=None, mod=mod)
            for s_ in ast.walk(E.frame_info[E.frame][0]):
                if isinstance(s_, ast.ImportFrom) and s_.module and not s_.level:
                    for a in s_.names:
                        if (a.asname or a.name) == f.id:
                            if f"{s_.module}.{a.name}" in models:
                                return self.model(E, models[f"{s_.module}.{a.name}"], node, st)
                            h = getattr(self, "x_" + s_.module.replace(".", "_") + "_" + a.name, None) or (getattr(self, "b_" + a.name, None) if s_.module in ("copy", "collections") else None)
                            if h is not None:
                                return h(E, node, st)
            raise Unsupported(f"call of {f.id}")
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and not f.value.args:
                mod, owner = E.frame_info[E.frame]
                for b in owner.bases:
                    r = self.loader.resolve_class(mod, b.id) if isinstance(b, ast.Name) else None
                    m = self.loader.method_of(r[1], r[0], f.attr) if r else None
                    if m is not None:
                        g, cls, gm = m
                        fs = self.by_qual.get((self.loader.file_of(gm), f"{cls.name}.{f.attr}"))
                        if fs is not None:
                            return self.call_contract(E, fs, node, st)
                        args, kw = self.args(E, node, st)
                        return E.inline_call(g, [Py("self")] + args, kw, st, node, owner=cls, mod=gm)
                if f.attr == "__init__":
                    return [(st, E.const(None))]
                raise Unsupported("super()")
            if dn and dn.count(".") == 1 and dn.split(".")[0] in ("self", "cls") or (dn and E.frame_info[E.frame][1] is not None and dn.count(".") == 1
                                                                               and dn.split(".")[0] == E.frame_info[E.frame][1].name):
                g = E.find_method(f.attr)
                if g is not None:
                    return self.call_function(E, f.attr, g, node, st, method=True)
            h = getattr(self, "x_" + (dn or "").replace(".", "_"), None)
            if h is not None and dn and isinstance(f.value, ast.Name) and E.lookup(f.value.id, st) is None or (h is not None and dn and dn.count(".") > 1):
                return h(E, node, st)
            return self.method(E, node, f, st, models)
        raise Unsupported(f"call {ast.unparse(node)[:60]}")

    def imported(self, E, name):
        """a function imported from another module of the repository"""
        mod, _ = E.frame_info[E.frame]
        for s in ast.walk(mod):
            if isinstance(s, ast.ImportFrom) and s.module and s.module.startswith("mixtera"):
                for a in s.names:
                    if (a.asname or a.name) == name and self.loader:
                        r = self.loader.resolve(s.module, a.name)
                        if r is not None:
                            file, g, m = r
                            return self.by_qual.get((file, a.name)), g, None, m
        return None

    def args(self, E, node, st):
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                raise Unsupported("starred argument")
            args.append(self.arg(E, a, st))
        kw = {}
        for k in node.keywords:
            if k.arg is None:
                raise Unsupported("**kwargs")
            kw[k.arg] = self.arg(E, k.value, st)
        return args, kw

    def arg(self, E, a, st):
        """argument passing: mutable containers go by reference"""
        if isinstance(a, (ast.Name, ast.Attribute, ast.Subscript)):
            p = E.place_for_alias(a, st)
            if p is not None:
                return Alias(p[0], p[1], p[2])
        return E.ev1(a, st)

    def model(self, E, m, node, st):
        if callable(m):
            return m(self, E, node, st)
        kind, _, rest = m.partition(":")
        if kind == "contract":
            return self.call_contract(E, self.by_id[rest], node, st)
        if kind == "skip":
            return [(st, E.const(None))]
        if kind == "arg":
            return E.ev(node.args[int(rest or 0)], st)
        if kind == "fresh":
            for a in list(node.args) + [k.value for k in node.keywords]:
                try:
                    E.ev1(a, st)
                except Unsupported:
                    pass
            E.ext_used.add(f"{ast.unparse(node.func)} returns an arbitrary {rest}")
            return [(st, E.fresh_value("ext", ty.parse(rest), st))]
        if kind == "pure":
            rt, _, name = rest.partition(":")
            args, kw = self.args(E, node, st)
            vs = []
            for v in args + [kw[k] for k in sorted(kw)]:
                if isinstance(v, Alias):
                    v = E.read_path(v.root, v.path, st)
                if isinstance(v, Py):
                    continue
                vs.append(E.mat(v, st))
            name = name or ast.unparse(node.func).replace(".", "_")
            t = ty.parse(rt)
            E.ext_used.add(f"{ast.unparse(node.func)} is a function of its arguments ({rt})")
            r = V(t, E.func("ext_" + name, [v.t for v in vs], t)(*[v.z for v in vs]))
            if ty.needs_wf(t):
                st.pc.extend(ty.wf(t, r.z))
            return [(st, r)]
        if kind == "raise":
            E.sinks[-1].append(("raise", st, rest))
            return []
        raise Unsupported(f"model {m}")

    def call_function(self, E, name, g, node, st, method=False):
        mod, owner = E.frame_info[E.frame]
        file = self.loader.file_of(mod) if self.loader else None
        qual = name
        gowner = gmod = None
        if method:
            r = E.find_method_full(name)
            if r is not None and r[0] is g:
                _, gowner, gmod = r
                file = self.loader.file_of(gmod)
                qual = f"{gowner.name}.{name}"
            else:
                qual = f"{owner.name}.{name}"
        fs = self.by_qual.get((file, qual))
        if fs is not None and fs.fn is not None and fs.fn is not E.fn or (fs is not None and fs.contract.get("recursive")):
            return self.call_contract(E, fs, node, st)
        args, kw = self.args(E, node, st)
        deco = [dotted(d) for d in g.decorator_list]
        if method and "staticmethod" not in deco:
            args = [Py("self")] + args
        # virtual dispatch: an inlined inherited method keeps the class of the object, only its module changes
        return E.inline_call(g, args, kw, st, node, mod=gmod) if gmod is not mod else E.inline_call(g, args, kw, st, node)

    def apply_lam(self, E, lam, vals, st):
        E.frame_no += 1
        fr = str(E.frame_no)
        E.frame_info[fr] = E.frame_info[lam.frame]
        names = [a.arg for a in lam.node.args.args]
        for k, v in list(st.env.items()):
            if k.startswith(lam.frame + ":"):
                st.env[f"{fr}:{k.split(':', 1)[1]}"] = Alias(k, [], v.t) if isinstance(v, V) else v
        for n, v in zip(names, vals):
            st.env[f"{fr}:{n}"] = v
        E.frames.append(fr)
        try:
            outs = E.ev(lam.node.body, st)
        finally:
            E.frames.pop()
        for s, _ in outs:
            for k in [k for k in s.env if k.startswith(fr + ":")]:
                s.env.pop(k)
        return outs

    def call_contract(self, E, fs, node, st, args=None, kw=None):
        c = fs.contract
        if fs.fn is None:
            raise Unsupported(f"{fs.id} not found in the source")
        if "modifies" not in c:
            # the callee's frame has to be part of its contract
            for f in c.get("fields", {}):
                if f not in c.get("unchanged", []):
                    raise Unsupported(f"contract of {fs.id} has no frame for self.{f}")
            if c.get("heap"):
                raise Unsupported(f"contract of {fs.id} has no frame for the heap")
        for p, t in c.get("params", {}).items():
            if not t.startswith("py:") and ty.parse(t).mutable and p not in c.get("params_unchanged", []) and p not in c.get("modifies", []):
                raise Unsupported(f"contract of {fs.id} has no frame for argument {p}")
        if args is None:
            args, kw = self.args(E, node, st)
        fn = fs.fn
        names = [a.arg for a in fn.args.posonlyargs + fn.args.args]
        if names and names[0] in ("self", "cls"):
            names = names[1:]
        kwonly = [a.arg for a in fn.args.kwonlyargs]
        bound = dict(zip(names, args))
        bound.update(kw)
        ds = fn.args.defaults
        E.frame_no += 1
        fr = str(E.frame_no)
        E.frame_info[fr] = (fs.modtree, fs.owner)
        E.frames.append(fr)
        outs = []
        places = {}
        try:
            for n, d in list(zip(names[len(names) - len(ds):], ds)) + [(a, d) for a, d in zip(kwonly, fn.args.kw_defaults) if d is not None]:
                if n not in bound:
                    bound[n] = E.ev1(d, st)
            types = c.get("params", {})
            for n in names + kwonly:
                if n not in bound:
                    raise Unsupported(f"missing argument {n} in call of {fs.id}")
                v = bound[n]
                if isinstance(v, Alias):
                    places[n] = v
                    v = E.read_path(v.root, v.path, st)
                if n in types and types[n].startswith("py:") or isinstance(v, (Lam, Py)):
                    st.env[f"{fr}:{n}"] = v
                    continue
                if n not in types:
                    continue
                v = E.coerce(v, ty.parse(types[n]), st, f"argument {n} of {fs.id}")
                st.env[f"{fr}:{n}"] = E.named(v, st, n) if ty.needs_wf(v.t) else v
            E.called_contracts.add(fs.id)
            line = getattr(node, "lineno", None)
            for k, r in enumerate(c.get("requires", [])):
                g = E.spec_bool(r, st)
                E.emit(f"precondition {k} of {fs.id}: {r}", st, g, "call", line)
                st.pc.append(g)
            for k, r in enumerate(c.get("assume", [])):
                st.pc.append(E.spec_bool(r, st))
            oldold, pre = E.old, st.copy()
            E.old = pre
            try:
                for exc, cond in c.get("raises", {}).items():
                    cz = E.spec_bool(cond, st)
                    if E.can_handle_outer(exc, 1) if hasattr(E, "can_handle_outer") else E.can_handle(exc):
                        s = st.copy()
                        s.pc.append(cz)
                        self.havoc(E, c, places, fr, s)
                        for e in c.get("on_raise", {}).get(exc, []):
                            s.pc.append(E.spec_bool(e, s))
                        self.drop(s, fr)
                        E.sinks[-1].append(("raise", s, exc))
                    else:
                        E.emit(f"{fs.id} does not raise {exc}", st, z3.Not(cz), "safety", line)
                        st.pc.append(z3.Not(cz))
                self.havoc(E, c, places, fr, st)
                rt = c.get("returns")
                res = E.const(None)
                if c.get("yields"):
                    rt = f"List[{c['yields']}]"
                if rt:
                    res = E.fresh_value("r_" + fs.id.replace(".", "_"), ty.parse(rt), st)
                    st.env["ghost:result"] = res
                out0 = st.env.get("ghost:_out")
                if c.get("yields"):     # the callee's output, not the caller's
                    st.env["ghost:_out"] = res
                for e in c.get("ensures", []):
                    st.pc.append(E.spec_bool(e, st))
                if c.get("yields"):
                    st.env.pop("ghost:_out")
                    if out0 is not None:
                        st.env["ghost:_out"] = out0
                st.env.pop("ghost:result", None)
                outs = [(st, res)]
            finally:
                E.old = oldold
        finally:
            E.frames.pop()
        self.drop(st, fr)
        return outs

    def drop(self, st, fr):
        for k in [k for k in st.env if k.startswith(fr + ":")]:
            st.env.pop(k)

    def havoc(self, E, c, places, fr, st):
        for m in c.get("modifies", []):
            if m.startswith("self.") or m.startswith("heap:"):
                k = m if m.startswith("heap:") else "fld:" + m
                if k in st.env and isinstance(st.env[k], V):
                    E.record_write(k)
                    st.env[k] = E.fresh_value(m.split(".")[-1], st.env[k].t, st)
                elif k not in st.env:
                    raise Unsupported(f"callee modifies {m}, which the caller's contract does not declare")
            else:
                a = places.get(m)
                if a is None:
                    continue
                nv = E.fresh_value(m, a.t, st)
                E.write_path(a.root, a.path, nv, st, replace=False)
                st.env[f"{fr}:{m}"] = nv

    def yield_from_call(self, E, node, st):
        """yield from of a local helper generator without a contract: inline its body"""
        f = node.func
        dn = dotted(f)
        if dn and dn in E.c.get("calls", {}):
            return None
        g = None
        method = False
        if isinstance(f, ast.Name):
            g = E.find_function(f.id)
        elif dn and dn.startswith("self.") and dn.count(".") == 1:
            g = E.find_method(f.attr)
            method = True
        if g is None or not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(g)):
            return None
        mod, owner = E.frame_info[E.frame]
        fs = self.by_qual.get((self.loader.file_of(mod) if self.loader else None, f"{owner.name}.{f.attr}" if method else f.id if isinstance(f, ast.Name) else ""))
        if fs is not None:
            return None
        args, kw = self.args(E, node, st)
        if method:
            args = [Py("self")] + args
        old = getattr(E, "_yf", False)
        E._yf = True
        try:
            return E.inline_call(g, args, kw, st, node)
        finally:
            E._yf = old

    # ------------------------------------------------------------------ container methods
    def method(self, E, node, f, st, models):
        name = f.attr
        if isinstance(f.value, (ast.Name, ast.Attribute, ast.Subscript)):
            E.check_place_read(f.value, st)
        p = None
        try:
            p = E.place(f.value, st)
        except Unsupported:
            p = None
        if p is not None and p[2] is None:
            b = st.env.get(p[0])
            if isinstance(b, Py):
                key = f"{b.name}.{name}"
                if key in models:
                    return self.model(E, models[key], node, st)
                h = getattr(self, "x_" + key.replace(".", "_"), None)
                if h:
                    return h(E, node, st)
        if p is not None and p[2] is not None:
            t = p[2]
            cur = E.read_path(p[0], p[1], st)
            if t.kind == "Opt":
                E.emit(f"receiver is not None: {ast.unparse(f)[:60]}", st, z3.Not(ty.is_none(cur.t, cur.z)), "none", node.lineno)
                st.pc.append(z3.Not(ty.is_none(cur.t, cur.z)))
                t = t.args[0]
                cur = V(t, ty.unopt(cur.t, cur.z))
            key = f"{t}.{name}"
            if key in models:
                return self.model(E, models[key], node, st)
            h = getattr(self, f"m_{'Dict' if t.isdict else t.kind}_{name}", None)
            if h is not None:
                return h(E, node, st, p, t, cur)
            if t.kind == "U":
                return self.u_method(E, node, cur, name, st, models)
            raise Unsupported(f"method {t}.{name}")
        outs = []
        for s, b in E.ev(f.value, st):
            if isinstance(b, Py):
                key = f"{b.name}.{name}"
                if key in models:
                    outs += self.model(E, models[key], node, s)
                    continue
                h = getattr(self, "x_" + key.replace(".", "_"), None)
                if h is None:
                    raise Unsupported(f"call {ast.unparse(node.func)}")
                outs += h(E, node, s)
                continue
            if isinstance(b, (Seq, MTuple, Poly)):
                b = E.mat(b, s)
            if b.t.kind == "Opt":
                b = E.coerce(b, b.t.args[0], s)
            if b.t.kind == "U" or b.t is STR:
                outs += self.u_method(E, node, b, name, s, models)
                continue
            if f"{b.t}.{name}" in models:
                outs += self.model(E, models[f"{b.t}.{name}"], node, s)
                continue
            h = getattr(self, f"m_{'Dict' if b.t.isdict else b.t.kind}_{name}", None)
            if h is None:
                raise Unsupported(f"method {b.t}.{name}")
            outs += h(E, node, s, None, b.t, b)
        return outs

    def u_method(self, E, node, b, name, st, models):
        key = f"{b.t}.{name}"
        if key in models:
            return self.model(E, models[key], node, st)
        if b.t is STR:
            h = getattr(self, f"m_Str_{name}", None)
            if h:
                return h(E, node, st, None, b.t, b)
        raise Unsupported(f"method {key}")

    def wr(self, E, p, v, st):
        if p is None:
            return
        E.write_path(p[0], p[1], v, st, replace=False)

    def m_Str_format(self, E, node, st, p, t, cur):
        return [(st, V(STR, ty.fresh("fmt", ty.sort(STR))))]
    m_Str_join = m_Str_format

    def m_List_append(self, E, node, st, p, t, cur):
        outs = []
        for s, v in E.ev(node.args[0], st):
            E.share_expr(node.args[0], s)
            cur = E.read_path(p[0], p[1], s)
            if cur.t.kind == "Opt":
                cur = V(cur.t.args[0], ty.unopt(cur.t, cur.z))
            v = E.coerce(v, t.args[0], s)
            n = ty.l_len(t, cur.z)
            self.wr(E, p, V(t, ty.mk(t, z3.Store(ty.l_arr(t, cur.z), n, v.z), n + 1)), s)
            outs.append((s, E.const(None)))
        return outs

    def m_List_extend(self, E, node, st, p, t, cur):
        v = self.listify(E, node.args[0], st)
        self.wr(E, p, E.concat(cur, E.coerce(v, t, st), st), st)
        return [(st, E.const(None))]

    def m_List_pop(self, E, node, st, p, t, cur):
        n = ty.l_len(t, cur.z)
        arr = ty.l_arr(t, cur.z)
        E.may_raise("IndexError", n > 0, st, f"pop from a non-empty list: {ast.unparse(node)}", node.lineno)
        if not node.args:
            v = V(t.args[0], z3.Select(arr, n - 1))
            self.wr(E, p, V(t, ty.mk(t, arr, n - 1)), st)
            return [(st, v)]
        i = E.coerce(E.ev1(node.args[0], st), INT, st).z
        i = z3.simplify(i)
        if z3.is_int_value(i) and i.as_long() < 0:
            i = n + i
        E.may_raise("IndexError", z3.And(0 <= i, i < n), st, f"index in range: {ast.unparse(node)}", node.lineno)
        new = ty.fresh("popped", arr.sort())
        j = ty.fresh("j", z3.IntSort())
        st.pc.append(ty.forall([j], z3.Select(new, j) == z3.If(j < i, z3.Select(arr, j), z3.Select(arr, j + 1)), [z3.Select(new, j)]))
        v = V(t.args[0], z3.Select(arr, i))
        self.ahist[new.get_id()] = ("remove", new, arr, i)
        self.wr(E, p, V(t, ty.mk(t, new, n - 1)), st)
        return [(st, v)]

    def m_List_remove(self, E, node, st, p, t, cur):
        """removes the first element equal to the argument"""
        x = E.coerce(E.ev1(node.args[0], st), t.args[0], st)
        n, arr = ty.l_len(t, cur.z), ty.l_arr(t, cur.z)
        i, j = ty.fresh("i", z3.IntSort()), ty.fresh("j", z3.IntSort())
        E.may_raise("ValueError", z3.Exists([j], z3.And(0 <= j, j < n, z3.Select(arr, j) == x.z)), st, f"the element is in the list: {ast.unparse(node)}", node.lineno)
        new = ty.fresh("removed", arr.sort())
        st.pc += [0 <= i, i < n, z3.Select(arr, i) == x.z, ty.forall([j], z3.Implies(z3.And(0 <= j, j < i), z3.Select(arr, j) != x.z), [z3.Select(arr, j)]),
                  ty.forall([j], z3.Select(new, j) == z3.If(j < i, z3.Select(arr, j), z3.Select(arr, j + 1)), [z3.Select(new, j)])]
        self.ahist[new.get_id()] = ("remove", new, arr, i)
        self.wr(E, p, V(t, ty.mk(t, new, n - 1)), st)
        return [(st, E.const(None))]

    def m_List_insert(self, E, node, st, p, t, cur):
        n, arr = ty.l_len(t, cur.z), ty.l_arr(t, cur.z)
        i = z3.simplify(E.coerce(E.ev1(node.args[0], st), INT, st).z)
        v = E.coerce(E.ev1(node.args[1], st), t.args[0], st)
        i = z3.If(i < 0, z3.If(n + i < 0, 0, n + i), z3.If(i > n, n, i))
        new = ty.fresh("ins", arr.sort())
        j = ty.fresh("j", z3.IntSort())
        st.pc.append(ty.forall([j], z3.Select(new, j) == z3.If(j < i, z3.Select(arr, j), z3.If(j == i, v.z, z3.Select(arr, j - 1))), [z3.Select(new, j)]))
        self.wr(E, p, V(t, ty.mk(t, new, n + 1)), st)
        return [(st, E.const(None))]

    def m_List_sort(self, E, node, st, p, t, cur):
        r = self.sort_list(E, cur, node, st)
        self.wr(E, p, r, st)
        return [(st, E.const(None))]

    def m_List_copy(self, E, node, st, p, t, cur):
        return [(st, cur)]

    def m_List_clear(self, E, node, st, p, t, cur):
        self.wr(E, p, V(t, ty.mk(t, ty.l_arr(t, cur.z), z3.IntVal(0))), st)
        return [(st, E.const(None))]

    def m_List_index(self, E, node, st, p, t, cur):
        v = E.coerce(E.ev1(node.args[0], st), t.args[0], st)
        r = ty.fresh("index", z3.IntSort())
        n, arr = ty.l_len(t, cur.z), ty.l_arr(t, cur.z)
        E.may_raise("ValueError", E.contains(v, cur, st), st, f"value in list: {ast.unparse(node)}", node.lineno)
        j = ty.fresh("j", z3.IntSort())
        st.pc.append(z3.And(0 <= r, r < n, z3.Select(arr, r) == v.z))
        st.pc.append(ty.forall([j], z3.Implies(z3.And(0 <= j, j < r), z3.Select(arr, j) != v.z), [z3.Select(arr, j)]))
        return [(st, V(INT, r))]

    def m_Dict_get(self, E, node, st, p, t, cur):
        k = E.coerce(E.ev1(node.args[0], st), t.args[0], st)
        has = z3.Select(ty.d_dom(t, cur.z), k.z)
        val = V(t.args[1], z3.Select(ty.d_val(t, cur.z), k.z))
        if len(node.args) > 1:
            d = E.ev1(node.args[1], st)
            if isinstance(d, V) and d.t is NONE:
                d = None
            else:
                if isinstance(d, V) and d.t is REAL and t.args[1] is INT:
                    return [(st, V(REAL, z3.If(has, z3.ToReal(val.z), d.z)))]
                d = E.coerce(d, t.args[1], st)
                return [(st, V(t.args[1], z3.If(has, val.z, d.z)))]
        ot = Opt(t.args[1])
        if t.args[1].kind == "Opt":
            return [(st, V(ot, z3.If(has, val.z, ty.none(ot))))]
        return [(st, V(ot, z3.If(has, ty.some(ot, val.z), ty.none(ot))))]

    def m_Dict_keys(self, E, node, st, p, t, cur):
        return [(st, E.dict_view(cur, node.func.attr, st, p and (p[0], p[1], t)))]
    m_Dict_items = m_Dict_values = m_Dict_keys

    def m_Dict_copy(self, E, node, st, p, t, cur):
        return [(st, cur)]
    m_Set_copy = m_Dict_copy

    def m_Dict_clear(self, E, node, st, p, t, cur):
        self.wr(E, p, V(t, ty.empty(t)), st)
        return [(st, E.const(None))]
    m_Set_clear = m_Dict_clear

    def m_Dict_setdefault(self, E, node, st, p, t, cur):
        k = E.coerce(E.ev1(node.args[0], st), t.args[0], st)
        d = E.coerce(E.ev1(node.args[1], st), t.args[1], st)
        has = z3.Select(ty.d_dom(t, cur.z), k.z)
        nv = z3.If(has, z3.Select(ty.d_val(t, cur.z), k.z), d.z)
        self.wr(E, p, E.dict_set(cur, k.z, nv), st)
        return [(st, V(t.args[1], nv))]

    def m_Dict_pop(self, E, node, st, p, t, cur):
        k = E.coerce(E.ev1(node.args[0], st), t.args[0], st)
        has = z3.Select(ty.d_dom(t, cur.z), k.z)
        val = z3.Select(ty.d_val(t, cur.z), k.z)
        if len(node.args) == 1:
            E.may_raise("KeyError", has, st, f"key present: {ast.unparse(node)}", node.lineno)
            self.wr(E, p, E.dict_del(cur, k.z, st), st)
            return [(st, V(t.args[1], val))]
        s2 = st.copy()
        s2.pc.append(z3.Not(has))
        d = E.ev1(node.args[1], s2)
        st.pc.append(has)
        self.wr(E, p, E.dict_del(cur, k.z, st), st)
        return [(st, V(t.args[1], val)), (s2, d)]

    def m_Dict_update(self, E, node, st, p, t, cur):
        b = E.coerce(E.ev1(node.args[0], st), t, st)
        new = ty.fresh("upd", ty.sort(t))
        k = ty.fresh("k", ty.sort(t.args[0]))
        st.pc.extend(ty.wf(t, new))
        dn, da, db = (z3.Select(ty.d_dom(t, x), k) for x in (new, cur.z, b.z))
        st.pc.append(ty.forall([k], z3.And(dn == z3.Or(da, db), z3.Select(ty.d_val(t, new), k) == z3.If(db, z3.Select(ty.d_val(t, b.z), k), z3.Select(ty.d_val(t, cur.z), k))),
                               [dn]))
        st.pc.append(ty.forall([k], z3.Select(ty.d_val(t, new), k) == z3.If(db, z3.Select(ty.d_val(t, b.z), k), z3.Select(ty.d_val(t, cur.z), k)), [z3.Select(ty.d_val(t, new), k)]))
        self.wr(E, p, V(t, new), st)
        return [(st, E.const(None))]

    def m_Set_add(self, E, node, st, p, t, cur):
        k = E.coerce(E.ev1(node.args[0], st), t.args[0], st)
        self.wr(E, p, E.set_add(cur, k.z), st)
        return [(st, E.const(None))]

    def m_Set_discard(self, E, node, st, p, t, cur):
        k = E.coerce(E.ev1(node.args[0], st), t.args[0], st)
        has = z3.Select(ty.d_dom(t, cur.z), k.z)
        new = ty.fresh("disc", ty.sort(t))
        st.pc.append(ty.d_dom(t, new) == z3.Store(ty.d_dom(t, cur.z), k.z, z3.BoolVal(False)))
        st.pc.append(ty.d_n(t, new) == z3.If(has, ty.d_n(t, cur.z) - 1, ty.d_n(t, cur.z)))
        st.pc.extend(ty.wf(t, new))
        self.wr(E, p, V(t, new), st)
        return [(st, E.const(None))]

    def m_Set_remove(self, E, node, st, p, t, cur):
        k = E.coerce(E.ev1(node.args[0], st), t.args[0], st)
        E.may_raise("KeyError", z3.Select(ty.d_dom(t, cur.z), k.z), st, f"element present: {ast.unparse(node)}", node.lineno)
        return self.m_Set_discard(E, node, st, p, t, cur)

    def m_Set_update(self, E, node, st, p, t, cur):
        b = E.to_set(E.ev1(node.args[0], st), st)
        self.wr(E, p, E.set_op(ast.BitOr(), cur, b, st), st)
        return [(st, E.const(None))]

    def m_Set_union(self, E, node, st, p, t, cur):
        return [(st, E.set_op(ast.BitOr(), cur, E.ev1(node.args[0], st), st))]

    def m_Set_intersection(self, E, node, st, p, t, cur):
        return [(st, E.set_op(ast.BitAnd(), cur, E.ev1(node.args[0], st), st))]

    def m_Set_difference(self, E, node, st, p, t, cur):
        return [(st, E.set_op(ast.Sub(), cur, E.ev1(node.args[0], st), st))]

    # ------------------------------------------------------------------ builtins
    def listify(self, E, a, st):
        """value of an argument used as a finite sequence"""
        if isinstance(a, ast.GeneratorExp):
            if len(a.generators) != 1:
                raise Unsupported("nested generator")
            return E.list_comp(a.elt, a.generators[0], st)
        if isinstance(a, (ast.Name, ast.Attribute, ast.Subscript)) or (isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr in ("items", "keys", "values")):
            return E.iter_view(a, st)
        v = E.ev1(a, st)
        if isinstance(v, GenExp):
            return E.list_comp(v.node.elt, v.node.generators[0], st)
        return v

    def b_len(self, E, node, st):
        return [(s, V(INT, E.length(v, s))) for s, v in E.ev(node.args[0], st)]

    def b_abs(self, E, node, st):
        return [(s, V(v.t, z3.If(v.z >= 0, v.z, -v.z))) for s, v in E.ev(node.args[0], st)]

    def minmax(self, E, node, st, mn):
        kws = {k.arg: k.value for k in node.keywords}
        if len(node.args) >= 2 and not kws:
            res = []
            for s, vs in E.ev_items(node.args, st, lambda it, s: it):
                r = E.num(vs[0], s)
                for x in vs[1:]:
                    x = E.num(x, s)
                    a = r
                    if a.t is not x.t:
                        a, x = E.coerce(a, REAL, s), E.coerce(x, REAL, s)
                    c = x.z < a.z if mn else x.z > a.z
                    r = V(a.t, z3.If(c, x.z, a.z))
                res.append((s, r))
            return res
        l = self.listify(E, node.args[0], st)
        l = E.coerce(E.seq_of(l, st), List(E.seq_of(l, st).et), st) if not (isinstance(l, V) and l.t.kind == "List") else l
        et = l.t.args[0]
        arr, n = ty.l_arr(l.t, l.z), ty.l_len(l.t, l.z)
        dflt = kws.get("default")
        if dflt is None:
            E.may_raise("ValueError", n > 0, st, f"{'min' if mn else 'max'} of a non-empty sequence", node.lineno)
        w = ty.fresh("arg", z3.IntSort())
        j = ty.fresh("j", z3.IntSort())
        key = None
        if "key" in kws:
            key = E.ev1(kws["key"], st)
        def kz(z):
            if key is None:
                return V(et, z)
            if not isinstance(key, Lam):
                raise Unsupported("key function")
            return self.key_value(E, key, V(et, z), z3.BoolVal(True) if z.arg(1).eq(w) else z3.And(0 <= j, j < n), st)
        worse = self.lt_meta(E, kz(z3.Select(arr, j)), kz(z3.Select(arr, w)), st) if mn else self.lt_meta(E, kz(z3.Select(arr, w)), kz(z3.Select(arr, j)), st)
        facts = [0 <= w, w < n, ty.forall([j], z3.Implies(z3.And(0 <= j, j < n), z3.Not(worse)), [z3.Select(arr, j)])]
        # first such element
        strict = self.lt_meta(E, kz(z3.Select(arr, w)), kz(z3.Select(arr, j)), st) if mn else self.lt_meta(E, kz(z3.Select(arr, j)), kz(z3.Select(arr, w)), st)
        facts.append(ty.forall([j], z3.Implies(z3.And(0 <= j, j < w), strict), [z3.Select(arr, j)]))
        if dflt is None:
            st.pc.extend(facts)
            return [(st, V(et, z3.Select(arr, w)))]
        d = E.ev1(dflt, st)
        rt = et
        if isinstance(d, V) and d.t is NONE:
            rt = Opt(et)
        st.pc.append(z3.Implies(n > 0, z3.And(*facts)))
        dv = E.coerce(d, rt, st).z
        v = E.coerce(V(et, z3.Select(arr, w)), rt, st).z
        return [(st, V(rt, z3.If(n > 0, v, dv)))]

    def apply_named(self, E, key, v, st):
        raise Unsupported("key function")

    def b_min(self, E, node, st):
        return self.minmax(E, node, st, True)

    def b_max(self, E, node, st):
        return self.minmax(E, node, st, False)

    def lt_meta(self, E, a, b, st):
        if isinstance(a, V) and a.t.kind == "Tuple":
            a = MTuple([V(t, ty.acc(a.t, a.z, i)) for i, t in enumerate(a.t.args)])
        if isinstance(b, V) and b.t.kind == "Tuple":
            b = MTuple([V(t, ty.acc(b.t, b.z, i)) for i, t in enumerate(b.t.args)])
        if isinstance(a, MTuple):
            r = z3.BoolVal(False)
            for x, y in reversed(list(zip(a.items, b.items))):
                r = z3.Or(self.lt_meta(E, x, y, st), z3.And(z3.Not(self.lt_meta(E, y, x, st)), r))
            return r
        a, b = E.mat(a, st), E.mat(b, st)
        if a.t in (INT, REAL):
            return a.z < b.z
        if a.t is BOOL:
            return z3.And(z3.Not(a.z), b.z)
        return self.lt(E, a.t)(a.z, b.z)

    def sort_list(self, E, l, node, st):
        kws = {k.arg: k.value for k in node.keywords}
        rev = False
        if "reverse" in kws:
            rv = E.ev1(kws["reverse"], st)
            if not (z3.is_true(rv.z) or z3.is_false(rv.z)):
                raise Unsupported("symbolic reverse")
            rev = z3.is_true(rv.z)
        key = E.ev1(kws["key"], st) if "key" in kws else None
        t = l.t
        et = t.args[0]
        n, src = ty.l_len(t, l.z), ty.l_arr(t, l.z)
        arr = ty.fresh("sorted", src.sort())
        perm, inv = ty.fresh("perm", z3.ArraySort(z3.IntSort(), z3.IntSort())), ty.fresh("perminv", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        i, j = ty.fresh("i", z3.IntSort()), ty.fresh("j", z3.IntSort())
        self.perm_facts(st, arr, src, n, perm, inv)

        def kv(z, ix):
            if key is None:
                return V(et, z)
            if not isinstance(key, Lam):
                raise Unsupported("sort key")
            return self.key_value(E, key, V(et, z), z3.And(0 <= ix, ix < n), st)
        a, b = kv(z3.Select(arr, i), i), kv(z3.Select(arr, j), j)
        lt_ba, lt_ab = self.lt_meta(E, b, a, st), self.lt_meta(E, a, b, st)
        if rev:
            lt_ba, lt_ab = lt_ab, lt_ba
        pat = [z3.MultiPattern(z3.Select(arr, i), z3.Select(arr, j))]
        st.pc.append(ty.forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.And(z3.Not(lt_ba), z3.Implies(z3.Not(lt_ab), z3.Select(perm, i) < z3.Select(perm, j)))), pat))
        return V(t, ty.mk(t, arr, n))

    def perm_facts(self, st, arr, src, n, perm, inv):
        i = ty.fresh("i", z3.IntSort())
        pi, qi = z3.Select(perm, i), z3.Select(inv, i)
        st.pc.append(ty.forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= pi, pi < n, z3.Select(arr, i) == z3.Select(src, pi), z3.Select(inv, pi) == i)), [z3.Select(arr, i)]))
        pats = [z3.Select(src, i)] if _patternable(z3.Select(src, i)) else []
        st.pc.append(ty.forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= qi, qi < n, z3.Select(src, i) == z3.Select(arr, qi), z3.Select(perm, qi) == i)), pats))
        self.ahist[arr.get_id()] = ("perm", arr, src, n)     # sums over a permutation agree (see trusted base)

    def key_value(self, E, key, v, guard, st):
        """key function of a generic element; facts learnt while evaluating it are dropped (sound)"""
        s0 = st.copy()
        s0.pc.append(guard)
        mark = ty._q[0]
        outs = self.apply_lam(E, key, [v], s0)
        if len(outs) != 1:
            r = E.fold_ite(outs, s0)
            if r is None:
                raise Unsupported("branching sort key")
            outs = [r]
        out = outs[0][1]
        from .engine import _collect_fresh
        names = set()
        for x in (out.items if isinstance(out, MTuple) else [out]):
            if isinstance(x, V):
                _collect_fresh(x.z, names)
        if any(int(str(c).split("!")[-1]) > mark for c in names):
            raise Unsupported("sort key with side conditions")
        return out

    def b_sorted(self, E, node, st):
        l = self.listify(E, node.args[0], st)
        l = E.mat(E.seq_of(l, st) if not isinstance(l, V) or l.t.kind != "List" else l, st)
        order = sorted((n.lineno, n.col_offset) for n in ast.walk(E.fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "sorted")
        if (node.lineno, node.col_offset) in order:      # the list sorted by the k-th sorted(...) of the function, for hints
            st.env[f"ghost:_unsorted{order.index((node.lineno, node.col_offset))}"] = l
        return [(st, self.sort_list(E, l, node, st))]

    def b_list(self, E, node, st):
        if not node.args:
            return [(st, Poly("List"))]
        v = self.listify(E, node.args[0], st)
        if isinstance(v, V) and v.t.kind == "List":
            return [(st, v)]
        s = E.seq_of(v, st)
        if s.lazy_iter is not None:
            l = E.seq_to_list(s, st)
            E.consume_all(s, st)
            return [(st, l)]
        return [(st, E.seq_to_list(s, st))]
    b_tuple = b_list

    def b_set(self, E, node, st):
        if not node.args:
            return [(st, Poly("Set"))]
        v = self.listify(E, node.args[0], st)
        return [(st, E.to_set(v, st))]
    b_frozenset = b_set

    def b_bytearray(self, E, node, st):
        if node.args:
            raise Unsupported("bytearray of a value")
        return [(st, Poly("List"))]

    def b_bytes(self, E, node, st):
        if not node.args:
            return [(st, Poly("List"))]
        v = E.coerce(E.ev1(node.args[0], st), ty.parse("List[Int]"), st)
        return [(st, v)]

    def b_dict(self, E, node, st):
        if not node.args and not node.keywords:
            return [(st, Poly("Dict"))]
        if node.args and not node.keywords:
            v = E.ev1(node.args[0], st)
            if isinstance(v, V) and v.t.isdict:
                return [(st, V(T("Dict", v.t.args), v.z))]
            if isinstance(v, Poly) and v.kind == "Dict":
                return [(st, v)]
        raise Unsupported("dict()")

    def b_defaultdict(self, E, node, st):
        return [(st, Poly("Dict"))]

    def b_str(self, E, node, st):
        outs = []
        for s, v in E.ev(node.args[0], st):
            v = E.mat(v, s)
            outs.append((s, v if v.t is STR else V(STR, E.func(f"str_of_{v.t}", [v.t], STR)(v.z))))
        return outs

    def b_bool(self, E, node, st):
        return [(s, V(BOOL, E.truth(v, s))) for s, v in E.ev(node.args[0], st)]

    def b_int(self, E, node, st):
        outs = []
        for s, v in E.ev(node.args[0], st):
            v = E.num(v, s)
            if v.t is REAL:
                f = z3.ToInt(v.z)
                outs.append((s, V(INT, z3.If(v.z >= 0, f, -z3.ToInt(-v.z)))))
            elif v.t is INT:
                outs.append((s, v))
            else:
                raise Unsupported("int()")
        return outs

    def b_float(self, E, node, st):
        outs = []
        for s, v in E.ev(node.args[0], st):
            if isinstance(v, V) and v.t is STR:
                raise Unsupported("float of string")
            outs.append((s, E.coerce(E.num(v, s), REAL, s)))
        return outs

    def b_round(self, E, node, st):
        raise Unsupported("round")

    def b_range(self, E, node, st):
        vs = [E.coerce(E.ev1(a, st), INT, st).z for a in node.args]
        if len(vs) == 1:
            lo, hi, step = z3.IntVal(0), vs[0], 1
        elif len(vs) == 2:
            lo, hi, step = vs[0], vs[1], 1
        else:
            lo, hi = vs[0], vs[1]
            sz = z3.simplify(vs[2])
            step = sz.as_long() if z3.is_int_value(sz) else sz
        if isinstance(step, int) and step == 1:
            n = z3.simplify(hi - lo)
            n = n if _nonneg(n) else z3.If(hi > lo, hi - lo, z3.IntVal(0))
            return [(st, Seq(z3.simplify(n), lambda i, st: V(INT, z3.simplify(lo + i)), INT))]
        if isinstance(step, int) and step > 0:
            n = z3.If(hi > lo, (hi - lo + (step - 1)) / step, z3.IntVal(0))
            return [(st, Seq(n, lambda i, st: V(INT, lo + i * step), INT))]
        if isinstance(step, int):
            raise Unsupported("negative step")
        E.may_raise("ValueError", step != 0, st, "range step is not zero", node.lineno)
        E.emit(f"range step is positive: {ast.unparse(node)}", st, step > 0, "call", node.lineno)
        st.pc.append(step > 0)
        arr, n, i = ty.fresh("range", z3.ArraySort(z3.IntSort(), z3.IntSort())), ty.fresh("nrange", z3.IntSort()), ty.fresh("i", z3.IntSort())
        st.pc += [n >= 0, (n == 0) == (hi <= lo), z3.Implies(n > 0, z3.And(arr[0] == lo, arr[n - 1] + step >= hi)),
                  ty.forall([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(lo <= arr[i], arr[i] < hi, z3.Implies(i > 0, arr[i] == arr[i - 1] + step))), [arr[i]])]
        return [(st, Seq(n, lambda k, st: V(INT, arr[k]), INT))]

    def nested_sum(self, E, node, st):
        """sum(e for x in A for y in B ...)  ==  acc = 0; for x in A: for y in B: ... acc += e      (loops numbered as they are reached)"""
        g = node.args[0]
        if not hasattr(node, "_sum_nodes"):
            acc = "_sum"
            body = [ast.AugAssign(target=ast.Name(id=acc, ctx=ast.Store()), op=ast.Add(), value=g.elt)]
            for gen in g.generators[::-1]:
                if gen.is_async:
                    raise Unsupported("async generator")
                for c in gen.ifs[::-1]:
                    body = [ast.If(test=c, body=body, orelse=[])]
                body = [ast.For(target=gen.target, iter=gen.iter, body=body, orelse=[])]
            node._sum_nodes = [ast.Assign(targets=[ast.Name(id=acc, ctx=ast.Store())], value=ast.Constant(value=0)), body[0]]
            for n in node._sum_nodes:
                ast.copy_location(n, node)
                ast.fix_missing_locations(n)
        for gen in g.generators:
            if any(isinstance(n, ast.Name) and E.lookup(n.id, st) is not None for n in ast.walk(gen.target)):
                raise Unsupported("generator variable shadows a local")
        outs = []
        for kind, s, pay in E.block(node._sum_nodes, st):
            if kind == "normal":
                outs.append((s, E.mat(s.env[E.q("_sum")], s)))
                for k in [E.q("_sum")] + [E.q(n.id) for gen in g.generators for n in ast.walk(gen.target) if isinstance(n, ast.Name)]:
                    s.env.pop(k, None)      # names of the generator expression
            else:
                E.sinks[-1].append((kind, s, pay))
        return outs

    def b_sum(self, E, node, st):
        if isinstance(node.args[0], ast.GeneratorExp) and len(node.args[0].generators) > 1 and len(node.args) == 1:
            return self.nested_sum(E, node, st)
        l = self.listify(E, node.args[0], st)
        if isinstance(l, Seq) and l.src is not None and l.src.t.isdict and isinstance(node.args[0], ast.Call) and node.args[0].func.attr == "values":
            d = l.src
            for s in self.dsums.values():
                if s.name.startswith("dsum_") and s.kt is d.t.args[0] and s.vt is d.t.args[1]:
                    return [(st, V(s.rt, s.fn()(ty.d_keys(d.t, d.z), ty.d_val(d.t, d.z), ty.d_n(d.t, d.z))))]
        l = E.mat(E.seq_of(l, st) if not (isinstance(l, V) and l.t.kind == "List") else l, st)
        et = l.t.args[0]
        for s in self.sums.values():
            if s.name.startswith("sum_") and s.et is et and not s.pt:
                order = sorted((n.lineno, n.col_offset) for n in ast.walk(E.fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "sum")
                if (node.lineno, node.col_offset) in order:      # the list summed by the k-th sum(...) of the function, for hints
                    st.env[f"ghost:_sum{order.index((node.lineno, node.col_offset))}"] = l
                return [(st, V(s.rt, s.fn()(ty.l_arr(l.t, l.z), ty.l_len(l.t, l.z))))]
        raise Unsupported(f"sum of {l.t}")

    def b_enumerate(self, E, node, st):
        seq = E.iter_view(node.args[0], st)
        start = z3.IntVal(0)
        if len(node.args) > 1:
            start = E.coerce(E.ev1(node.args[1], st), INT, st).z
        for k in node.keywords:
            if k.arg == "start":
                start = E.coerce(E.ev1(k.value, st), INT, st).z
        ep = (lambda i: [None, seq.elem_place(i)]) if seq.elem_place else None
        s = Seq(seq.n, lambda i, st: MTuple([V(INT, z3.simplify(start + i)), seq.get(i, st)]), Tup(INT, seq.et), src=None, lazy_iter=seq.lazy_iter, elem_place=ep)
        if seq.lazy_iter is not None:
            raise Unsupported("enumerate over an iterator")
        return [(st, s)]

    def b_zip(self, E, node, st):
        seqs = [E.iter_view(a, st) for a in node.args]
        n = seqs[0].n
        for s in seqs[1:]:
            n = z3.If(s.n < n, s.n, n)
        if any(s.lazy_iter is not None for s in seqs):
            raise Unsupported("zip over an iterator")
        return [(st, Seq(z3.simplify(n), lambda i, st: MTuple([s.get(i, st) for s in seqs]), Tup(*[s.et for s in seqs]),
                         elem_place=(lambda i: [s.elem_place(i) if s.elem_place else None for s in seqs])))]

    def b_reversed(self, E, node, st):
        seq = E.iter_view(node.args[0], st)
        return [(st, Seq(seq.n, lambda i, st: seq.get(seq.n - 1 - i, st), seq.et))]

    def b_any(self, E, node, st):
        return self.anyall(E, node, st, False)

    def b_all(self, E, node, st):
        return self.anyall(E, node, st, True)

    def anyall(self, E, node, st, isall):
        l = self.listify(E, node.args[0], st)
        l = E.mat(E.seq_of(l, st) if not (isinstance(l, V) and l.t.kind == "List") else l, st)
        i = ty.fresh("i", z3.IntSort())
        e = E.truth(V(l.t.args[0], z3.Select(ty.l_arr(l.t, l.z), i)), st)
        rng = z3.And(0 <= i, i < ty.l_len(l.t, l.z))
        r = ty.fresh("all" if isall else "any", z3.BoolSort())
        w = ty.fresh("w", z3.IntSort())
        ew = z3.substitute(e, (i, w))
        rw = z3.substitute(rng, (i, w))
        if isall:
            st.pc.append(ty.forall([i], z3.Implies(z3.And(r, rng), e), [z3.Select(ty.l_arr(l.t, l.z), i)]))
            st.pc.append(z3.Or(r, z3.And(rw, z3.Not(ew))))
        else:
            st.pc.append(ty.forall([i], z3.Implies(z3.And(z3.Not(r), rng), z3.Not(e)), [z3.Select(ty.l_arr(l.t, l.z), i)]))
            st.pc.append(z3.Or(z3.Not(r), z3.And(rw, ew)))
        return [(st, V(BOOL, r))]

    def b_isinstance(self, E, node, st):
        v = E.ev1(node.args[0], st)
        names = [dotted(x) for x in (node.args[1].elts if isinstance(node.args[1], ast.Tuple) else [node.args[1]])]
        if isinstance(v, MTuple):
            return [(st, V(BOOL, z3.BoolVal("tuple" in names)))]
        kinds = {"Int": {"int"}, "Bool": {"bool", "int"}, "Real": {"float"}, "Str": {"str"}, "List": {"list"}, "Dict": {"dict"}, "DefaultDict": {"dict", "defaultdict"},
                 "Set": {"set"}, "Tuple": {"tuple"}, "None": set()}
        if isinstance(v, V) and v.t.kind in kinds:
            return [(st, V(BOOL, z3.BoolVal(bool(kinds[v.t.kind] & set(names)))))]
        if isinstance(v, V) and v.t.kind == "Opt":
            k = v.t.args[0].kind
            if k in kinds:
                return [(st, V(BOOL, z3.And(z3.Not(ty.is_none(v.t, v.z)), z3.BoolVal(bool(kinds[k] & set(names))))))]
        if isinstance(v, V) and v.t.kind == "Opt" and v.t.args[0].kind == "U" and v.t.args[0] in self.views:
            return [(st, V(BOOL, z3.And(z3.Not(ty.is_none(v.t, v.z)), z3.Or(*[E.func(f"isinstance_{n.replace('.', '_')}", [v.t.args[0]], BOOL)(ty.unopt(v.t, v.z)) for n in names]))))]
        if isinstance(v, V) and v.t.kind == "U":
            if self.class_of.get(v.t.name, v.t.name) in names:
                return [(st, V(BOOL, z3.BoolVal(True)))]
            return [(st, V(BOOL, z3.Or(*[E.func(f"isinstance_{n.replace('.', '_')}", [v.t], BOOL)(v.z) for n in names])))]
        raise Unsupported("isinstance")

    def b_next(self, E, node, st):
        p = E.place(node.args[0], st) if not isinstance(node.args[0], ast.Call) else None
        if p is None or p[2] is None:
            if isinstance(node.args[0], ast.GeneratorExp):
                l = self.listify(E, node.args[0], st)
                et = l.t.args[0]
                n = ty.l_len(l.t, l.z)
                first = V(et, z3.Select(ty.l_arr(l.t, l.z), 0))
                if len(node.args) == 1:
                    E.may_raise("StopIteration", n > 0, st, "next() of a non-empty generator", node.lineno)
                    return [(st, first)]
                d = E.ev1(node.args[1], st)
                rt = Opt(et) if isinstance(d, V) and d.t is NONE else et
                return [(st, V(rt, z3.If(n > 0, E.coerce(first, rt, st).z, E.coerce(d, rt, st).z)))]
            if isinstance(node.args[0], ast.Call) and dotted(node.args[0].func) == "iter":
                s = E.iter_view(node.args[0].args[0], st)
                if s.lazy_iter is None:
                    E.may_raise("StopIteration", s.n > 0, st, "next(iter(x)) of a non-empty x", node.lineno)
                    return [(st, s.get(z3.IntVal(0), st))]
            raise Unsupported("next()")
        root, path, t = p
        cur = E.read_path(root, path, st)
        if t.kind == "Opt":
            cur = E.coerce(cur, t.args[0], st)
            t = cur.t
        if t.kind == "U":
            m = E.c.get("calls", {}).get(f"next:{t}")
            if m is not None:
                return self.model(E, m, node, st)
        if t.kind != "Iter":
            raise Unsupported("next()")
        pos, n = ty.it_pos(t, cur.z), ty.it_n(t, cur.z)
        el = V(t.args[0], z3.Select(ty.it_arr(t, cur.z), pos))
        if len(node.args) == 1:
            E.may_raise("StopIteration", pos < n, st, f"iterator not exhausted: {ast.unparse(node)}", node.lineno)
            E.write_path(root, path, V(t, ty.mk(t, ty.it_arr(t, cur.z), n, pos + 1)), st, replace=False)
            return [(st, el)]
        d = E.ev1(node.args[1], st)
        rt = Opt(t.args[0]) if isinstance(d, V) and d.t is NONE else t.args[0]
        more = pos < n
        E.write_path(root, path, V(t, ty.mk(t, ty.it_arr(t, cur.z), n, z3.If(more, pos + 1, pos))), st, replace=False)
        return [(st, V(rt, z3.If(more, E.coerce(el, rt, st).z, E.coerce(d, rt, st).z)))]

    def b_iter(self, E, node, st):
        v = E.ev1(node.args[0], st)
        if isinstance(v, V) and v.t.kind == "Iter":
            return E.ev(node.args[0], st)
        s = E.seq_of(v, st)
        return [(st, E.coerce(s, T("Iter", (s.et,)), st))]

    def b_deepcopy(self, E, node, st):
        return [(s, v) for s, v in E.ev(node.args[0], st)]
    b_copy = b_deepcopy
    x_copy_deepcopy = b_deepcopy
    x_copy_copy = b_deepcopy

    def b_type(self, E, node, st):
        return [(st, Py("type"))]

    def b_print(self, E, node, st):
        return [(st, E.const(None))]

    def b_id(self, E, node, st):
        raise Unsupported("id()")

    def b_map(self, E, node, st):
        raise Unsupported("map()")

    def b_hash(self, E, node, st):
        v = E.mat(E.ev1(node.args[0], st), st)
        return [(st, V(INT, E.func(f"hash_{v.t}", [v.t], INT)(v.z)))]

    def x_math_floor(self, E, node, st):
        v = E.num(E.ev1(node.args[0], st), st)
        return [(st, V(INT, z3.ToInt(v.z) if v.t is REAL else v.z))]

    def x_math_ceil(self, E, node, st):
        v = E.num(E.ev1(node.args[0], st), st)
        return [(st, V(INT, -z3.ToInt(-v.z) if v.t is REAL else v.z))]

    def x_math_isclose(self, E, node, st):
        from fractions import Fraction
        kw = {k.arg: k.value for k in node.keywords}
        tol = {}
        for nm, d in (("rel_tol", 1e-9), ("abs_tol", 0.0)):
            v = E.ev1(kw[nm], st) if nm in kw else E.const(d)
            tol[nm] = E.coerce(v, REAL, st).z
        ab = lambda z: z3.If(z >= 0, z, -z)
        a, b = (E.coerce(E.ev1(x, st), REAL, st).z for x in node.args[:2])
        m = z3.If(ab(a) >= ab(b), ab(a), ab(b))
        d = ab(a - b)
        return [(st, V(BOOL, z3.Or(d <= E.mul(tol["rel_tol"], m) if not z3.is_rational_value(tol["rel_tol"]) else d <= tol["rel_tol"] * m, d <= tol["abs_tol"])))]

    def x_random_shuffle(self, E, node, st):
        p = E.place(node.args[0], st)
        cur = E.read_path(p[0], p[1], st)
        t = cur.t
        src, n = ty.l_arr(t, cur.z), ty.l_len(t, cur.z)
        arr = ty.fresh("shuffled", src.sort())
        pm, inv = (ty.fresh(x, z3.ArraySort(z3.IntSort(), z3.IntSort())) for x in ("perm", "perminv"))
        self.perm_facts(st, arr, src, n, pm, inv)
        mt = ty.parse("Map[Int,Int]")       # for specifications: where the elements went
        st.env["ghost:_perm"], st.env["ghost:_perminv"] = V(mt, pm), V(mt, inv)
        E.write_path(p[0], p[1], V(t, ty.mk(t, arr, n)), st, replace=False)
        E.ext_used.add("random.shuffle permutes the list")
        return [(st, E.const(None))]


from . import nd as _nd
_nd.install(Library)


def _is_store(x):
    return z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE


def _is_ite(x):
    return z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE
