-------------------------------- MODULE GenAgg ------------------------------
(* Every range [lo, hi, step] of a small lattice, on the altitude coordinate, *)
(* with one point on every lattice position; and every longitude range.       *)
EXTENDS Common, Json, IOUtils
VARIABLE g
M == IF IOEnv.VERIF_TIER = "quick" THEN 5 ELSE 8
LStep == IF IOEnv.VERIF_TIER = "quick" THEN 45 ELSE 30
AllA == {<<a, b, s>> \in (0..M) \X (1..(M + 2)) \X (1..4) : a < b}
AllL == {<<a, b, s>> \in {-180 + LStep * k : k \in 0..(360 \div LStep)} \X {LStep, 90, 360 - LStep, 360} \X {LStep, 90} : TRUE}
SA == SetToSeq(AllA)
SL == SetToSeq(AllL)
Kern == <<"moments", "sum", "max", "mean", "min", "stddev">>
RecA(j) == LET t == SA[j] IN
  [q |-> 1, shape |-> <<M + 1>>, list |-> 0, form |-> "slice", kernel |-> Kern[(j % 6) + 1],
   coords |-> <<[std |-> "latitude", v |-> [k \in 1..(M + 1) |-> k]], [std |-> "longitude", v |-> [k \in 1..(M + 1) |-> 2 * k]],
                [std |-> "altitude", v |-> [k \in 1..(M + 1) |-> (k * 5) % (M + 1)]]>>,
   vars |-> <<[name |-> "v0", v |-> [k \in 1..(M + 1) |-> k], m |-> <<>>]>>,
   grid |-> <<[std |-> "altitude", key |-> "z", lo |-> t[1], hi |-> t[2], step |-> t[3]]>>]
NL == 360 \div LStep
RecL(j) == LET t == SL[j] IN
  [q |-> 1, shape |-> <<NL>>, list |-> 0, form |-> "list", kernel |-> Kern[(j % 6) + 1],
   coords |-> <<[std |-> "latitude", v |-> [k \in 1..NL |-> k]],
                [std |-> "longitude", v |-> [k \in 1..NL |-> (IF j % 2 = 0 THEN -180 ELSE 0) + LStep * (k - 1)]]>>,
   vars |-> <<[name |-> "v0", v |-> [k \in 1..NL |-> k], m |-> <<>>]>>,
   grid |-> <<[std |-> "longitude", key |-> "x", lo |-> t[1], hi |-> t[1] + t[2], step |-> t[3]]>>]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [j \in 1..Len(SA) |-> RecA(j)] \o [j \in 1..Len(SL) |-> RecL(j)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
