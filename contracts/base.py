"""Shared specification vocabulary."""
import z3
from pyvc.lib import Library, FuncSpec, SumFn, DSumFn
from pyvc.engine import V

LIB = Library()


def function(id, file, qual, props=(), **contract):
    LIB.add(FuncSpec(id, file, qual, contract, props))


def sumfn(name, et, ptypes, rt, weight):
    LIB.sums[name] = SumFn(name, et, ptypes, rt, weight)


def dsumfn(name, kt, vt, ptypes, rt, weight):
    LIB.dsums[name] = DSumFn(name, kt, vt, ptypes, rt, weight)


def macro(name, params, expr):
    LIB.defs[name] = (params, expr)


sumfn("sum_int", "Int", [], "Int", lambda e: e.z)
sumfn("sum_real", "Real", [], "Real", lambda e: e.z)
dsumfn("dsum_int", "Key", "Int", [], "Int", lambda k, v: v.z)
dsumfn("dsum_real", "Key", "Real", [], "Real", lambda k, v: v.z)
LIB.truthy.add("Key")
LIB.class_of["Key"] = "MixtureKey"

def occ_weight(e, v):
    return z3.If(e.z == v.z, z3.IntVal(1), z3.IntVal(0))


def tup(e, i):
    from pyvc import ty
    return ty.acc(e.t, e.z, i)


def dval(d, k):
    from pyvc import ty
    return z3.Select(ty.d_val(d.t, d.z), k.z)


sumfn("sumk_real", "Key", ["Dict[Key,Real]"], "Real", lambda k, d: dval(d, k))
sumfn("sumk_int", "Key", ["Dict[Key,Int]"], "Int", lambda k, d: dval(d, k))
macro("samekeys", ["a", "b"], "forall('Key', lambda k: iff(k in a, k in b), trig=(k in a)) and len(a) == len(b)")
