------------------------------- MODULE Subset -------------------------------
(* Subsetting by inclusive limits (cis/subsetting/subset.py).                 *)
(* A limit is a record [std, lo, hi] (ABSENT = open end); Turn is 360 degrees *)
(* in the units of the longitude coordinate.                                  *)
EXTENDS Common

\* turns that can matter for longitudes within a few turns of each other
Turns == -4..4

\* A longitude lies within [lo, hi] when one of its representations does.
LonIn(v, lo, hi, Turn) == \E k \in Turns : lo <= v + k * Turn /\ v + k * Turn <= hi
\* the representations of v inside the limits
LonReps(v, lo, hi, Turn) == {v + k * Turn : k \in {j \in Turns : lo <= v + j * Turn /\ v + j * Turn <= hi}}

\* open ends default to the extremes of the data
Lo(c, lim) == IF lim.lo = ABSENT THEN MinSet({c.v[k] : k \in 1..Len(c.v)}) ELSE lim.lo
Hi(c, lim) == IF lim.hi = ABSENT THEN MaxSet({c.v[k] : k \in 1..Len(c.v)}) ELSE lim.hi

PointIn(coords, lim, k, Turn) ==
    LET c == ByStd(coords, lim.std)
    IN  IF lim.std = "longitude" THEN LonIn(c.v[k], Lo(c, lim), Hi(c, lim), Turn)
        ELSE Lo(c, lim) <= c.v[k] /\ c.v[k] <= Hi(c, lim)

\* the selected points, in order
Selected(coords, lims, n, Turn) ==
    Where(n, LAMBDA k : \A j \in 1..Len(lims) : PointIn(coords, lims[j], k, Turn))

\* a coordinate value of a selected point as it may be reported
CoordReported(coords, lims, std, k, got, Turn) ==
    LET c == ByStd(coords, std)
        L == {j \in 1..Len(lims) : lims[j].std = std}
    IN  IF std = "longitude" /\ L # {}
        THEN \E j \in L : got \in LonReps(c.v[k], Lo(c, lims[j]), Hi(c, lims[j]), Turn)
        ELSE got = c.v[k]
=============================================================================
