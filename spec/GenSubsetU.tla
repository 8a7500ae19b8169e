----------------------------- MODULE GenSubsetU -----------------------------
(* Enumerates longitude limits against one dataset holding every lattice      *)
(* longitude in one of the two conventions.                                   *)
EXTENDS Common, Json, IOUtils
VARIABLE g
Step == IF IOEnv.VERIF_TIER = "quick" THEN 30 ELSE 10
Conv(c) == IF c = 0 THEN {-180 + Step * k : k \in 0..(360 \div Step - 1)}
           ELSE IF c = 1 THEN {Step * k : k \in 0..(360 \div Step - 1)}
           ELSE IF c = 2 THEN {-180 + Step * k : k \in 0..(360 \div Step)}
           ELSE {30, 40, 50}
Starts == {-180 + Step * k : k \in 0..(540 \div Step)}
Widths == {0, Step, 90, 180, 360 - Step, 360}
All == {<<c, s, w>> \in (0..3) \X Starts \X Widths : s + w <= 360}
Seqs == SetToSeq(All)
Rec(j) == LET t == Seqs[j]
              L == SetToSeq(Conv(t[1])) IN
  [q |-> 1, shape |-> <<Len(L)>>, list |-> 0, form |-> "slice",
   coords |-> <<[std |-> "latitude", v |-> [k \in 1..Len(L) |-> k]], [std |-> "longitude", v |-> L]>>,
   vars |-> <<[v |-> [k \in 1..Len(L) |-> 100 + k], m |-> <<>>]>>,
   lims |-> <<[std |-> "longitude", key |-> "longitude", lo |-> t[2], hi |-> t[2] + t[3]]>>]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [j \in 1..Len(Seqs) |-> Rec(j)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
