----------------------------- MODULE GenKdTree ------------------------------
(* Enumerates index configurations on a lattice of the sphere with every      *)
(* lattice point as a query; positions in degrees.                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Json, IOUtils, TLC
VARIABLE g
Tier == IOEnv.VERIF_TIER
Lats == IF Tier = "quick" THEN {-90, -60, 0, 75} ELSE {-90, -60, -10, 0, 45, 80, 90}
Lons == IF Tier = "quick" THEN {-180, -170, -60, 0, 90, 175} ELSE {-180, -170, -90, -20, 0, 60, 90, 175}
P == Lats \X Lons
Sizes == IF Tier = "quick" THEN {1, 2} ELSE {1, 2}
Sets == UNION {kSubset(s, P) : s \in Sizes}
Seqs == SetToSeq(Sets)
Rec(j) == LET s == SetToSeq(Seqs[j])
              sh == (j % 2) * 180 IN
   [pts |-> [k \in 1..Len(s) |-> <<s[k][1], s[k][2] + sh>>],
    qs |-> SetToSeq(P), mask |-> <<>>, leaf |-> 1, k |-> 1 + (j % 2),
    r |-> <<500, 3000, 6000, 9900, 13000, 17500>>[1 + (j % 6)], q |-> 1]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [j \in 1..Len(Seqs) |-> Rec(j)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
