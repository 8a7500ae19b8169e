----------------------------- MODULE GenCollapse ----------------------------
(* Every order of axes, every set of axes to go, every kernel, a few patterns *)
(* of missing values, coordinates over every pair of axes.                    *)
EXTENDS Collapse, Json, IOUtils
VARIABLE g
Quick == IOEnv.VERIF_TIER = "quick"
At(s, n) == s[1 + (n % Len(s))]
Lats == <<[pts |-> <<-60, 0, 60>>, bnds |-> <<>>], [pts |-> <<60, 0>>, bnds |-> <<>>], [pts |-> <<-40, 20>>, bnds |-> <<-90, 0, 0, 30>>], [pts |-> <<20>>, bnds |-> <<>>], [pts |-> <<50>>, bnds |-> <<30, 90>>]>>
Lons == <<[pts |-> <<0, 4, 10>>, bnds |-> <<>>], [pts |-> <<10, 2>>, bnds |-> <<20, 4, 4, 0>>], [pts |-> <<0, 180>>, bnds |-> <<>>], [pts |-> <<30>>, bnds |-> <<>>]>>
Ax(std, n) == CASE std = "latitude" -> [std |-> std, pts |-> At(Lats, n).pts, bnds |-> At(Lats, n).bnds, circ |-> FALSE]
                [] std = "longitude" -> [std |-> std, pts |-> At(Lons, n).pts, bnds |-> At(Lons, n).bnds, circ |-> (n % 4 = 2)]
                [] std = "time" -> [std |-> std, pts |-> At(<<<<1, 2>>, <<4, 6, 10>>, <<5>>>>, n), bnds |-> <<>>, circ |-> FALSE]
                [] std = "air_pressure" -> [std |-> std, pts |-> At(<<<<100, 50>>, <<20, 40>>>>, n), bnds |-> <<>>, circ |-> FALSE]
                [] std = "model_level_number" -> [std |-> std, pts |-> <<1, 2>>, bnds |-> <<>>, circ |-> FALSE]
Orders == <<<<"latitude", "longitude">>, <<"longitude", "latitude">>, <<"time", "latitude", "longitude">>, <<"latitude", "time", "longitude">>, <<"longitude", "latitude", "time">>,
            <<"model_level_number", "latitude", "longitude">>, <<"latitude", "longitude", "model_level_number">>, <<"time", "model_level_number", "latitude", "longitude">>,
            <<"latitude", "time">>, <<"time", "air_pressure">>, <<"time", "longitude">>, <<"latitude">>, <<"air_pressure", "time", "latitude", "longitude">>>>
Keys(std) == CASE std = "latitude" -> <<"latitude", "y", "lat">> [] std = "longitude" -> <<"longitude", "x", "lon">> [] std = "time" -> <<"time", "t">>
               [] std = "air_pressure" -> <<"air_pressure", "p", "pres">> [] OTHER -> <<"model_level_number">>
Axes(o, n) == [k \in 1..Len(o) |-> Ax(o[k], n + (k * (n \div 5)))]
Subs(m) == SetToSeq((SUBSET (1..m)) \ {{}})
InOrder(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Value(n, k) == (((k * k * (3 + (n % 4))) + (n * 7) + k) % 23) - 9
Masks(n, len) == IF n % 3 = 0 THEN <<>> ELSE [k \in 1..len |-> IF n % 3 = 1 THEN (IF (k + n) % 3 = 0 THEN 1 ELSE 0) ELSE (IF k % (2 + (n % 2)) = 0 \/ k < 3 THEN 1 ELSE 0)]
AuxOf(name, axes, dims, n) == [var |-> name, dims |-> dims, v |-> [k \in 1..Prod([j \in 1..Len(dims) |-> Len(axes[dims[j]].pts)]) |-> ((k * (3 + (n % 3))) + n) % 17]]
Kernels == <<"mean", "moments", "sum", "min", "max", "">>
CaseOf(n) ==
  LET o == At(Orders, n)
      axes == Axes(o, n \div 13)
      m == Len(o)
      S == At(Subs(m), n \div 7)
      hyb == "model_level_number" \in ToSet(o) /\ n % 2 = 0
      lev == IF hyb THEN AxisOf(axes, "model_level_number") ELSE 0
      others == SelectSeq([k \in 1..m |-> k], LAMBDA k : k # lev)
      pair == IF m < 2 THEN <<>> ELSE LET a == 1 + (n % m)  b == 1 + ((n + 1 + ((n \div 3) % (m - 1))) % m) IN IF a = b THEN <<a>> ELSE IF a < b THEN <<a, b>> ELSE <<b, a>>
      size == Prod(Shape(axes))
      vars == IF n % 4 = 0 THEN <<"x", "y">> ELSE <<"x">>
      over == InOrder(S)
  IN [axes |-> axes, hybrid |-> hyb, lazy |-> n % 5 = 1, kernel |-> At(Kernels, n \div 11), text |-> FALSE,
      aux |-> (IF pair # <<>> /\ n % 3 # 0 THEN <<AuxOf("extra", axes, pair, n)>> ELSE <<>>) \o
              (IF hyb THEN <<AuxOf("level_height", axes, <<lev>>, n), AuxOf("sigma", axes, <<lev>>, n + 1), AuxOf("surface_altitude", axes, SubSeq(others, 1, 2), n)>> ELSE <<>>) \o
              (IF n % 6 = 0 THEN <<[var |-> "fixed", dims |-> <<>>, v |-> <<7>>]>> ELSE <<>>),
      vars |-> [k \in 1..Len(vars) |-> [name |-> vars[k], v |-> [j \in 1..size |-> Value(n + (3 * k), j)], m |-> Masks((n \div 2) + k, size)]],
      over |-> [k \in 1..Len(over) |-> LET s == axes[over[k]].std IN [key |-> At(Keys(s), n + k), std |-> s, dims |-> <<over[k]>>]]]
N == IF Quick THEN 500 ELSE 6000
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [n \in 1..N |-> CaseOf(n)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
