from contracts.base import function, sumfn, macro, occ_weight, tup

U = "mixtera/utils/utils.py"

macro("srt", ["l"], "all(all(implies(i < j, l[i][0] <= l[j][0]) for j in range(len(l))) for i in range(len(l)))")
sumfn("occ", "Tuple[Int,Int]", ["Tuple[Int,Int]"], "Int", occ_weight)

function("utils.merge_sorted_lists", U, "merge_sorted_lists", props=["C01", "C11"],
         params={"sorted_list1": "List[Tuple[Int,Int]]", "sorted_list2": "List[Tuple[Int,Int]]"},
         returns="List[Tuple[Int,Int]]",
         requires=["srt(sorted_list1)", "srt(sorted_list2)"],
         ensures=["srt(result)", "len(result) == len(sorted_list1) + len(sorted_list2)",
                  "occ(result, gv) == occ(sorted_list1, gv) + occ(sorted_list2, gv)"],
         ghost={"gv": ("Tuple[Int,Int]", None)},
         locals={"merged_list": "List[Tuple[Int,Int]]"},
         params_unchanged=["sorted_list1", "sorted_list2"], nloops=1,
         loops={0: dict(inv=[
             "0 <= i and i <= len(sorted_list1) and 0 <= j and j <= len(sorted_list2)",
             "len(merged_list) == i + j", "srt(merged_list)",
             "occ(merged_list, gv) == occ(sorted_list1, i, gv) + occ(sorted_list2, j, gv)",
             "implies(i < len(sorted_list1), all(merged_list[m][0] <= sorted_list1[i][0] for m in range(i + j)))",
             "implies(j < len(sorted_list2), all(merged_list[m][0] <= sorted_list2[j][0] for m in range(i + j)))",
         ], decreases="len(sorted_list1) + len(sorted_list2) - i - j")})

sumfn("sum_frac", "Tuple[Real,Int]", [], "Real", lambda e: tup(e, 0))
function("utils.distribute_by_ratio", U, "distribute_by_ratio", props=["C02", "C03"],
         params={"n": "Int", "ratios": "List[Real]"}, returns="List[Int]",
         requires=["n >= 0", "all(r >= 0 for r in ratios)",
                   "implies(len(ratios) > 0, sum_real(ratios) == 1)"],
         ensures=["len(result) == len(ratios)", "implies(len(ratios) > 0, sum_int(result) == n)",
                  "all(result[k] >= 0 and abs(result[k] - ratios[k] * n) < 1 for k in range(len(ratios)))"],
         locals={"assigned": "List[Int]", "fractional_parts": "List[Tuple[Real,Int]]"},
         params_unchanged=["ratios"], nloops=2,
         loops={0: dict(inv=[
             "len(assigned) == _i0", "len(fractional_parts) == _i0",
             "all(assigned[k] == floor(ratios[k] * n) for k in range(_i0))",
             "all(fractional_parts[k][0] == ratios[k] * n - assigned[k] and fractional_parts[k][1] == k for k in range(_i0))",
             "sum_int(assigned, _i0) + sum_frac(fractional_parts, _i0) == n * sum_real(ratios, _i0)",
             "sum_frac(fractional_parts, _i0) >= 0"]),
             1: dict(inv=[
                 "0 <= idx and idx <= len(ratios)", "len(assigned) == len(ratios)", "remainder >= 0",
                 "remainder + sum_int(assigned) == n",
                 "remainder + idx == sum_frac(fractional_parts)",
                 "all(0 <= fractional_parts[m][0] and fractional_parts[m][0] < 1 and 0 <= fractional_parts[m][1] and fractional_parts[m][1] < len(ratios) for m in range(len(ratios)))",
                 "all(fractional_parts[m][0] == ratios[fractional_parts[m][1]] * n - floor(ratios[fractional_parts[m][1]] * n) for m in range(len(ratios)))",
                 "all(assigned[fractional_parts[m][1]] == floor(ratios[fractional_parts[m][1]] * n) for m in range(idx, len(ratios)))",
                 "all(assigned[k] >= floor(ratios[k] * n) for k in range(len(ratios)))",
                 "all(assigned[k] == floor(ratios[k] * n) or (assigned[k] == floor(ratios[k] * n) + 1 and assigned[k] - 1 < ratios[k] * n) for k in range(len(ratios)))",
             ], asserts=["fractional_parts[idx][0] > 0"], decreases="len(ratios) - idx")},
         hints=["lem_zero(fractional_parts, 'sum_frac', idx, len(fractional_parts))",
                "lem_le1(fractional_parts, 'sum_frac', 0, idx)",
                "lem_le1(fractional_parts, 'sum_frac', 0, len(fractional_parts))"])
