------------------------------- MODULE KdTree -------------------------------
(* The spherical index of cis/collocation/kdtree.py.                          *)
(* What a query must return is stated against an abstract metric d: for each  *)
(* query an array of distances (integer metres) to the indexed points.        *)
EXTENDS Integers, Sequences, FiniteSets

\* Points that may be returned: the indexed points that are not masked.
Live(d, mask) == {k \in 1..Len(d) : mask = <<>> \/ mask[k] = 0}

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* A k-nearest answer `got` (sequence of point numbers, nearest first) with reported distances gd.
NearestOk(d, mask, k, got, gd, tol) ==
    LET live == Live(d, mask)
        kk == IF Cardinality(live) < k THEN Cardinality(live) ELSE k
    IN  /\ Len(got) = kk
        /\ Cardinality({got[j] : j \in 1..Len(got)}) = kk          \* no point twice
        /\ \A j \in 1..kk : got[j] \in live
        /\ \A j \in 1..kk : d[got[j]] - gd[j] \in -tol..tol        \* distance is the great-circle distance
        /\ \A j \in 1..(kk-1) : d[got[j]] <= d[got[j+1]] + tol     \* nearest first
        /\ \A p \in live \ {got[j] : j \in 1..kk} : \A j \in 1..kk : d[got[j]] <= d[p] + tol

\* No radius is too small for the points in the very same place.
TogetherOk(same, mask, got) == \A p \in Live(same, mask) : same[p] = 1 => \E j \in 1..Len(got) : got[j] = p

\* A range answer: every live point within r, none beyond, each once (a band of tol around r is left open).
BallOk(d, mask, r, got, tol) ==
    LET live == Live(d, mask)
        G == {got[j] : j \in 1..Len(got)}
    IN  /\ Cardinality(G) = Len(got)
        /\ G \subseteq live
        /\ \A p \in live : (d[p] <= r - tol) => p \in G
        /\ \A p \in G : d[p] <= r + tol
=============================================================================
