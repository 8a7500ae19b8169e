-------------------------------- MODULE MCBox -------------------------------
(* The collocation as the code runs it: per variable, drop the missing data   *)
(* points and renumber the rest, build an index over what remains, query it   *)
(* for every sample, then filter the hits by each further separation in turn. *)
(* Points on a line (distance = difference) suffice for the bookkeeping.      *)
EXTENDS Box
CONSTANTS NV, H, A
VARIABLES spos, dpos, sal, dal, miss, hs, as, var, rows, hits, todo, out
vars == <<spos, dpos, sal, dal, miss, hs, as, var, rows, hits, todo, out>>
ND == 2
E == [sc |-> <<[std |-> "altitude", v |-> sal]>>, dc |-> <<[std |-> "altitude", v |-> dal]>>,
      D |-> [s \in 1..2 |-> [k \in 1..ND |-> 100 * AbsI(spos[s] - dpos[k])]],
      h |-> IF hs = 0 THEN ABSENT ELSE 100 * hs + 50, a |-> IF as = 0 THEN ABSENT ELSE as,
      t |-> ABSENT, pn |-> ABSENT, pd |-> 1]
Vals(w) == [k \in 1..ND |-> IF miss[w][k] THEN MASKED ELSE k]
Init == /\ spos \in [1..2 -> 0..H] /\ dpos \in [1..ND -> 0..H] /\ sal \in [1..2 -> 0..A] /\ dal \in [1..ND -> 0..A]
        /\ miss \in [1..NV -> [1..ND -> BOOLEAN]] /\ hs \in 0..1 /\ as \in 0..1
        /\ var = 1 /\ rows = <<>> /\ hits = <<>> /\ todo = <<"index">> /\ out = <<>>
Keep == UNCHANGED <<spos, dpos, sal, dal, miss, hs, as>>
\* drop missing rows; the index holds row numbers of what remains
Index == /\ var <= NV /\ todo = <<"index">>
         /\ rows' = Where(ND, LAMBDA k : ~miss[var][k])
         /\ todo' = <<"query">> /\ UNCHANGED <<var, hits, out>> /\ Keep
Query == /\ todo = <<"query">>
         /\ hits' = [s \in 1..2 |-> Where(Len(rows), LAMBDA r : hs = 0 \/ AbsI(spos[s] - dpos[rows[r]]) <= hs)]
         /\ todo' = <<"filter">> /\ UNCHANGED <<var, rows, out>> /\ Keep
Filter == /\ todo = <<"filter">>
          /\ hits' = IF as = 0 THEN hits
                     ELSE [s \in 1..2 |-> SelectSeq(hits[s], LAMBDA r : AbsI(sal[s] - dal[rows[r]]) < as)]
          /\ todo' = <<"emit">> /\ UNCHANGED <<var, rows, out>> /\ Keep
Emit == /\ todo = <<"emit">>
        /\ out' = Append(out, [s \in 1..2 |-> {rows[hits[s][j]] : j \in 1..Len(hits[s])}])
        /\ var' = var + 1 /\ todo' = <<"index">> /\ UNCHANGED <<rows, hits>> /\ Keep
Next == Index \/ Query \/ Filter \/ Emit
Spec == Init /\ [][Next]_vars
Correct == \A w \in 1..Len(out) : \A s \in 1..2 : out[w][s] = Required(E, s, Vals(w)) /\ Possible(E, s, Vals(w)) = {}
\* a point is used by a sample exactly when it would be used were it the sample and the sample the data (no cache, order or pruning effects)
Symmetric == \A s \in 1..2, k \in 1..ND :
    Horizontal(E, s, k) = (IF E.h = ABSENT \/ AbsI(dpos[k] - spos[s]) * 100 <= E.h - Tol THEN "in" ELSE "out")
=============================================================================
