----------------------------- MODULE MCGridFile -----------------------------
(* The files of a grid, given in any order, are put together one to another   *)
(* in any order wherever they adjoin; the result is the grid which was saved. *)
EXTENDS GridFile
CONSTANTS Sizes
VARIABLES g, d, parts, cuts, step
vars == <<g, d, parts, cuts, step>>
Ax(n, up, k) == [std |-> k, pts |-> [j \in 1..n |-> IF up THEN 10 * j ELSE 50 - 10 * j],
                 bnds |-> [j \in 1..(2 * n) |-> LET c == (j + 1) \div 2 IN (IF up THEN 10 * c ELSE 50 - 10 * c) + (IF (j % 2 = 1) = up THEN -5 ELSE 5)]]
Init == \E n, m \in Sizes, up, wp \in BOOLEAN, e \in 1..2 :
          /\ g = [axes |-> <<Ax(n, up, "a"), Ax(m, wp, "b")>>, v |-> [p \in 1..(n * m) |-> p]]
          /\ d = e
          /\ \E c \in SUBSET (1..((IF e = 1 THEN n ELSE m) - 1)) :
               /\ cuts = SetToSortSeq(c, <)
               /\ parts = {Slab(g.axes, g.v, e, x[1], x[2]) : x \in ToSet(Pieces(IF e = 1 THEN n ELSE m, cuts))}
          /\ step = 0
P(a) == a.axes[d].pts
Way(a) == IF Len(P(a)) < 2 THEN 0 ELSE IF P(a)[1] < P(a)[2] THEN 1 ELSE -1
\* no other file lies between two which are joined
Adjoin(a, b) == LET lo == a.axes[d].bnds  hi == b.axes[d].bnds IN
  IF Last(P(a)) < Head(P(b)) THEN Last(lo) = Head(hi) /\ Way(a) # -1 /\ Way(b) # -1
  ELSE Last(lo) = Head(hi) /\ Way(a) # 1 /\ Way(b) # 1
Join == /\ Cardinality(parts) > 1
        /\ \E a, b \in parts : a # b /\ Adjoin(a, b) /\ parts' = (parts \ {a, b}) \cup {JoinParts(a, b, d)}
        /\ step' = step + 1 /\ UNCHANGED <<g, d, cuts>>
Spec == Init /\ [][Join]_vars
\* ---- invariants ----
Whole == Cardinality(parts) = 1 => parts = {g}
Count == Cardinality(parts) + step = Len(cuts) + 1
\* the files can always be put together
Stuck == Cardinality(parts) > 1 => ENABLED Join
TurnTwice == Turned(Turned(g, d), d) = g
TurnedValues == LET t == Turned(g, d) IN \A p \in 1..Len(g.v) : LET ix == Unflat(ShapeOf(g.axes), p) IN
   t.v[Flat(ShapeOf(g.axes), [ix EXCEPT ![d] = Len(P(g)) + 1 - @])] = g.v[p]
=============================================================================
