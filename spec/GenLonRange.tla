----------------------------- MODULE GenLonRange ----------------------------
(* Every start against global and regional axes in both directions and in     *)
(* several conventions, in histories of one or two calls.                     *)
EXTENDS Common, Json, IOUtils
VARIABLE g
Grids == << <<-180, -120, -60, 0, 60, 120>>, <<0, 60, 120, 180, 240, 300>>, <<300, 240, 180, 120, 60, 0>>,
            <<30, 40, 70>>, <<-40, 0, 20>>, <<200, 210, 250>>, <<120, 60, -150>>, <<-90>> >>
S1 == IF IOEnv.VERIF_TIER = "quick" THEN {-180, 0, -90, 30} ELSE {-180 + 30 * k : k \in 0..12}
S2 == {1000, -180, 0, 60, 200}
All == {<<c, s, r, b, m>> \in (1..Len(Grids)) \X S1 \X S2 \X (0..1) \X (0..1) : m = 0 \/ r = 1000}
Seqs == SetToSeq(All)
Rec(j) == LET t == Seqs[j]
              p == Grids[t[1]]  n == Len(p) IN
  [q |-> 1, kind |-> "g", starts |-> IF t[3] = 1000 THEN <<t[2]>> ELSE <<t[2], t[3]>>, list |-> 0,
   axes |-> <<[std |-> "latitude", pts |-> <<0, 10>>, bnds |-> <<>>],
              [std |-> "longitude", pts |-> p, bnds |-> IF t[4] = 0 THEN <<>>
                  ELSE FlattenSeq([k \in 1..n |-> <<p[k] - 5, p[k] + 5>>])]>>,
   aux |-> <<[var |-> "auxc", dims |-> <<"longitude">>, v |-> [k \in 1..n |-> 7 * k],
              b |-> IF t[4] = 0 THEN <<>> ELSE FlattenSeq([k \in 1..n |-> <<7 * k - 1, 7 * k + 1>>])]>>,
   vars |-> <<[v |-> [k \in 1..(2*n) |-> 100 + k], m |-> IF t[5] = 0 THEN <<>> ELSE [k \in 1..(2*n) |-> IF k % 3 = 0 THEN 1 ELSE 0]]>>]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [j \in 1..Len(Seqs) |-> Rec(j)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
