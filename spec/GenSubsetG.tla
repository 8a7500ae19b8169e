----------------------------- MODULE GenSubsetG -----------------------------
(* Enumerates longitude limits against global and regional grids in both      *)
(* conventions, ascending and descending, with and without bounds.            *)
EXTENDS Common, Json, IOUtils
VARIABLE g
Grids == << <<-180, -120, -60, 0, 60, 120>>, <<0, 60, 120, 180, 240, 300>>, <<300, 240, 180, 120, 60, 0>>,
            <<30, 40, 70>>, <<-40, 0, 20>> >>
Starts == IF IOEnv.VERIF_TIER = "quick" THEN {-180, -120, -30, 0, 30, 60, 180, 300} ELSE {-180 + 30 * k : k \in 0..18}
Widths == {0, 60, 90, 180, 300, 330, 360}
All == {<<c, s, w, b>> \in (1..Len(Grids)) \X Starts \X Widths \X (0..1) : s + w <= 360 /\ (b = 1 => c <= 2)}
Seqs == SetToSeq(All)
Rec(j) == LET t == Seqs[j]
              p == Grids[t[1]] IN
  [q |-> 1, list |-> 0, form |-> "slice",
   axes |-> <<[std |-> "latitude", pts |-> <<0, 10>>, bnds |-> <<>>],
              [std |-> "longitude", pts |-> p, bnds |-> IF t[4] = 0 THEN <<>>
                  ELSE FlattenSeq([k \in 1..Len(p) |-> <<p[k] - 30, p[k] + 30>>])]>>,
   aux |-> <<[var |-> "auxc", dims |-> <<"longitude">>, v |-> [k \in 1..Len(p) |-> 7 * k]]>>,
   vars |-> <<[v |-> [k \in 1..(2*Len(p)) |-> 100 + k], m |-> <<>>]>>,
   lims |-> <<[std |-> "longitude", key |-> "longitude", lo |-> t[2], hi |-> t[2] + t[3]]>>]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [j \in 1..Len(Seqs) |-> Rec(j)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
