------------------------------ MODULE MCKdTree ------------------------------
(* Design-level model of the two tree traversals: best-first nearest query    *)
(* and range query with pruning / bulk inclusion.  The tree (how node point   *)
(* sets are split), the metric and the cell bounds are all nondeterministic;  *)
(* bounds only have to be admissible (lb <= every distance, ub >= every       *)
(* distance).  Checked: the result equals the exhaustive answer of KdTree.    *)
EXTENDS KdTree, TLC
CONSTANTS N, MaxD
VARIABLES d, r, k, mode, queue, best, found, done
vars == <<d, r, k, mode, queue, best, found, done>>
Pts == 1..N
Infty == MaxD + 1
Min2(S) == IF S = {} THEN Infty ELSE MinOf(S)
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Dist(S) == {d[p] : p \in S}
Bounds(S) == {b \in 0..MaxD : \A p \in S : b <= d[p]}
Uppers(S) == {b \in 0..MaxD : \A p \in S : b >= d[p]}

Init == /\ d \in [Pts -> 0..MaxD] /\ r \in 0..MaxD /\ mode \in {"nn", "ball"}
        /\ k \in (IF mode = "nn" THEN 1..2 ELSE {1})
        /\ queue = {<<0, Pts>>} /\ best = {} /\ found = {} /\ done = FALSE
\* distance of the worst of the k neighbours held so far
Bound == IF Cardinality(best) < k THEN Infty ELSE MaxOf(Dist(best))
First == CHOOSE e \in queue : \A f \in queue : e[1] <= f[1]
\* keep the k nearest of best \cup S
RECURSIVE Keep(_)
Keep(S) == IF Cardinality(S) <= k THEN S
           ELSE LET w == CHOOSE p \in S : \A o \in S : d[p] >= d[o] IN Keep(S \ {w})

NnStop == /\ mode = "nn" /\ ~done
          /\ IF queue = {} THEN TRUE ELSE First[1] > Bound
          /\ done' = TRUE /\ UNCHANGED <<d, r, k, mode, queue, best, found>>
NnLeaf == /\ mode = "nn" /\ ~done /\ queue # {} /\ First[1] <= Bound
          /\ best' = Keep(best \cup {p \in First[2] : d[p] < Bound})
          /\ queue' = queue \ {First} /\ UNCHANGED <<d, r, k, mode, found, done>>
NnSplit == /\ mode = "nn" /\ ~done /\ queue # {} /\ First[1] <= Bound /\ Cardinality(First[2]) > 1
           /\ \E L \in (SUBSET First[2]) \ {{}, First[2]} :
                \E b1 \in Bounds(L), b2 \in Bounds(First[2] \ L) :
                   queue' = (queue \ {First}) \cup {e \in {<<b1, L>>, <<b2, First[2] \ L>>} : e[1] <= Bound}
           /\ UNCHANGED <<d, r, k, mode, best, found, done>>
BallStop == /\ mode = "ball" /\ ~done /\ queue = {} /\ done' = TRUE
            /\ UNCHANGED <<d, r, k, mode, queue, best, found>>
BallNode == /\ mode = "ball" /\ ~done /\ queue # {}
            /\ LET e == CHOOSE x \in queue : TRUE IN
               \E lb \in Bounds(e[2]), ub \in Uppers(e[2]) :
                 \/ lb > r /\ queue' = queue \ {e} /\ UNCHANGED found
                 \/ lb <= r /\ ub < r /\ found' = found \cup e[2] /\ queue' = queue \ {e}
                 \/ lb <= r /\ ub >= r /\ found' = found \cup {p \in e[2] : d[p] <= r} /\ queue' = queue \ {e}
                 \/ lb <= r /\ ub >= r /\ UNCHANGED found
                      /\ \E L \in (SUBSET e[2]) \ {{}, e[2]} :
                           queue' = (queue \ {e}) \cup {<<0, L>>, <<0, e[2] \ L>>}
            /\ UNCHANGED <<d, r, k, mode, best, done>>
Next == NnStop \/ NnLeaf \/ NnSplit \/ BallStop \/ BallNode

Exhaustive == done => IF mode = "nn"
    THEN /\ Cardinality(best) = IF N < k THEN N ELSE k
         /\ \A p \in Pts \ best : \A b \in best : d[b] <= d[p]
    ELSE found = {p \in Pts : d[p] <= r}
Spec == Init /\ [][Next]_vars
=============================================================================
