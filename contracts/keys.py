from contracts.base import function, sumfn, macro, LIB

K = "mixtera/core/query/mixture/mixture_key.py"
LIB.class_of["MK"] = "MixtureKey"
LIB.truthy.add("MK")

MKF = dict(fields={"properties": "Dict[Str,List[Val]]", "_hash": "Opt[Int]"}, heap={"MK.properties": "Dict[Str,List[Val]]"})
macro("shares", ["a", "b"], "exists('Int,Int', lambda i, j: 0 <= i and i < len(a) and 0 <= j and j < len(b) and a[i] == b[j])")

function("MixtureKey.__eq__", K, "MixtureKey.__eq__", props=["C15"],
         params={"other": "MK"}, **MKF, modifies=[], returns="Bool",
         ensures=["iff(result, all(k in other.properties and (shares(self.properties[k], other.properties[k])"
                  " or (len(self.properties[k]) == 0 and len(other.properties[k]) == 0)) for k in self.properties))"],
         loops={0: dict(inv=["all(implies(self.properties.order[m] == k and m < _i0, k in other.properties and (shares(self.properties[k], other.properties[k])"
                             " or (len(self.properties[k]) == 0 and len(other.properties[k]) == 0))) for k in self.properties for m in range(_i0))"])})
