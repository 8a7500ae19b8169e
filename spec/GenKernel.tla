------------------------------ MODULE GenKernel ------------------------------
(* Every kernel with every placement of the sample against three data points  *)
(* on a small lattice of the coordinate which decides the nearest one, with   *)
(* the points in every order, and with a point missing or not.                *)
EXTENDS Common, Json, IOUtils
VARIABLE g
Kernels == <<"nn_h", "nn_a", "nn_t", "nn_p", "nn_horizontal_only", "moments", "mean", "sum", "min", "max", "stddev">>
Press == <<3, 5, 10, 17, 30>>
Lons == <<-179, -90, 10, 91, 178>>
All == {<<k, s, a, b, c, m>> \in (1..11) \X (1..5) \X (1..5) \X (1..5) \X (1..5) \X (0..3) :
          /\ (k > 5 => s = 1)
          /\ IOEnv.VERIF_TIER # "quick" \/ (k + 2 * s + 3 * a + b + c + m) % 8 = 0}
S == SetToSeq(All)
Rec(j) == LET t == S[j]
              K == <<t[3], t[4], t[5]>> IN
  [q |-> 1, kernel |-> Kernels[t[1]], missing |-> 1, list |-> 0, out_name |-> "", sm |-> <<>>, sv |-> <<1>>,
   h |-> ABSENT, a |-> ABSENT, t |-> ABSENT, pn |-> ABSENT, pd |-> 1,
   sc |-> <<[std |-> "time", v |-> <<10 + t[2]>>], [std |-> "air_pressure", v |-> <<Press[t[2]]>>], [std |-> "longitude", v |-> <<Lons[t[2]]>>],
            [std |-> "altitude", v |-> <<2 * t[2]>>], [std |-> "latitude", v |-> <<89 - 20 * t[2]>>]>>,
   dc |-> <<[std |-> "air_pressure", v |-> [k \in 1..3 |-> Press[K[k]]]], [std |-> "latitude", v |-> [k \in 1..3 |-> 85 - 20 * K[k]]],
            [std |-> "longitude", v |-> [k \in 1..3 |-> Lons[K[k]]]],
            [std |-> "altitude", v |-> [k \in 1..3 |-> 2 * K[k] + 1]], [std |-> "time", v |-> [k \in 1..3 |-> 10 + K[k]]]>>,
   vars |-> <<[name |-> "v0", v |-> <<3, -1, 7>>, m |-> IF t[6] = 0 THEN <<>> ELSE [k \in 1..3 |-> IF k = t[6] THEN 1 ELSE 0]]>>]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [j \in 1..Len(S) |-> Rec(j)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
