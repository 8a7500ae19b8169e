-------------------------------- MODULE GenBox ------------------------------
(* Every combination of separations given or not, on a lattice of samples and *)
(* data around the pole, the date line and the equator, with ties at the      *)
(* limits; the sum of powers of two identifies the selected points.           *)
EXTENDS Common, Json, IOUtils
VARIABLE g
Pow == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512>>
Centres == <<<<0, 0>>, <<0, 180>>, <<88, 10>>, <<-90, 0>>, <<45, -179>>, <<0, 359>>>>
All == {<<c, h, a, t, p, k>> \in (1..6) \X {ABSENT, 0, 120, 5000} \X {ABSENT, 1, 2} \X {ABSENT, 1, 3} \X {ABSENT, 2, 3} \X (0..1) :
          IOEnv.VERIF_TIER # "quick" \/ (c + (IF h = ABSENT THEN 0 ELSE h) + (IF a = ABSENT THEN 0 ELSE a)
              + (IF t = ABSENT THEN 0 ELSE t) + (IF p = ABSENT THEN 0 ELSE p) + k) % 3 = 0}
S == SetToSeq(All)
Off == <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<-1, -1>>, <<3, 2>>, <<2, -3>>, <<0, 0>>, <<0, 360>>>>
ClampLat(x) == IF x > 90 THEN 180 - x ELSE IF x < -90 THEN -180 - x ELSE x
Rec(j) == LET t == S[j]
              c == Centres[t[1]] IN
  [q |-> 1, kernel |-> "sum", missing |-> 1, list |-> 0, out_name |-> "", sm |-> <<>>, sv |-> <<1, 2>>,
   h |-> IF t[2] = ABSENT THEN ABSENT ELSE t[2] * 1000, a |-> t[3], t |-> t[4], pn |-> IF t[5] = ABSENT THEN ABSENT ELSE t[5], pd |-> 2 - t[6],
   sc |-> <<[std |-> "latitude", v |-> <<c[1], ClampLat(c[1] + 1)>>], [std |-> "longitude", v |-> <<c[2], c[2] + 1>>],
            [std |-> "altitude", v |-> <<5, 6>>], [std |-> "time", v |-> <<10, 11>>], [std |-> "air_pressure", v |-> <<8, 12>>]>>,
   dc |-> <<[std |-> "latitude", v |-> [k \in 1..8 |-> ClampLat(c[1] + Off[k][1])]],
            [std |-> "longitude", v |-> [k \in 1..8 |-> c[2] + Off[k][2]]],
            [std |-> "altitude", v |-> <<5, 6, 7, 4, 5, 6, 8, 5>>], [std |-> "time", v |-> <<10, 11, 12, 9, 13, 10, 10, 11>>],
            [std |-> "air_pressure", v |-> <<8, 12, 16, 4, 6, 24, 11, 8>>]>>,
   vars |-> <<[name |-> "v0", v |-> [k \in 1..8 |-> Pow[k]], m |-> <<>>]>>]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [j \in 1..Len(S) |-> Rec(j)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
