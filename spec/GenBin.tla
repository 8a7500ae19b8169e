-------------------------------- MODULE GenBin ------------------------------
(* Every orientation of a small sample grid (axis order, direction, bounds    *)
(* given or not, gaps), with a data point on every lattice position.          *)
EXTENDS Common, Json, IOUtils
VARIABLE g
Lats == {<<-2, 2>>, <<2, -2>>, <<-6, 2, 4>>}
Lons == {<<0, 90, 180, 270>>, <<270, 180, 90, 0>>, <<-180, -60, 60>>, <<-10, 10, 50>>, <<350, 370>>, <<60, -60, -180>>}
Bnd == 0..2          \* 0 none, 1 contiguous (half-width one), 2 reversed order within each pair
All == {<<a, o, l, b>> \in Lats \X Lons \X BOOLEAN \X Bnd : TRUE}
S == SetToSeq(All)
Bounds(p, b) == IF b = 0 THEN <<>>
                ELSE [k \in 1..(2 * Len(p)) |-> IF (k % 2 = 1) = (b = 1) THEN p[(k + 1) \div 2] - 1 ELSE p[(k + 1) \div 2] + 1]
LatV == <<-6, -3, -2, -1, 0, 2, 3, 4>>
LonV == <<-180, -90, -11, -9, 0, 9, 51, 89, 90, 179, 269, 270, 349, 350, 359, 400>>
N == Len(LatV) * Len(LonV)
Vals == [k \in 1..N |-> (k * 7) % 10]
Kern == <<"moments", "sum", "max", "mean", "min">>
Rec(j) == LET t == S[j]
              la == [std |-> "latitude", pts |-> t[1], bnds |-> Bounds(t[1], t[4])]
              lo == [std |-> "longitude", pts |-> t[2], bnds |-> Bounds(t[2], t[4])]
              n == Len(t[1]) * Len(t[2]) IN
  [q |-> 1, kernel |-> IF j % 3 = 0 THEN "sum" ELSE "max", missing |-> 1, axes |-> IF t[3] THEN <<la, lo>> ELSE <<lo, la>>,
   sv |-> [k \in 1..n |-> k], sm |-> [k \in 1..n |-> IF k = 3 THEN 1 ELSE 0], list |-> 0, shape |-> <<N>>,
   coords |-> <<[std |-> "latitude", v |-> [k \in 1..N |-> LatV[((k - 1) % 8) + 1]]],
                [std |-> "longitude", v |-> [k \in 1..N |-> LonV[((k - 1) \div 8) + 1]]]>>,
   vars |-> <<[name |-> "v0", v |-> Vals, m |-> <<>>]>>]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [j \in 1..Len(S) |-> Rec(j)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
