----------------------------- MODULE MCLonRange -----------------------------
(* A gridded dataset whose longitude range is set again and again: wrap the   *)
(* points, rotate so that the axis keeps its direction, rotate bounds and     *)
(* data along.  Every value stays with its meridian throughout.               *)
EXTENDS LonRange
CONSTANTS Turn, NPts, West, East, Steps
VARIABLES src, pts, bnds, data, last, n
vars == <<src, pts, bnds, data, last, n>>
Cells(p) == FlattenSeq([k \in 1..NPts |-> <<2 * p[k] - 1, 2 * p[k] + 1>>])   \* in half units
Init == /\ src \in {p \in [1..NPts -> (-West)..East] : (Increasing(p) \/ Decreasing(p)) /\ AbsI(p[NPts] - p[1]) < Turn}
        /\ pts = src /\ bnds = Cells(src) /\ data = [k \in 1..NPts |-> 10 * k] /\ last = 0 /\ n = 0
Wrapped(s) == [k \in 1..NPts |-> s + ((pts[k] - s) % Turn)]
Ascending == pts[1] <= pts[NPts]
First(w) == IF Ascending THEN CHOOSE k \in 1..NPts : \A j \in 1..NPts : w[k] <= w[j]
            ELSE CHOOSE k \in 1..NPts : \A j \in 1..NPts : w[k] >= w[j]
Order(w) == [k \in 1..NPts |-> ((First(w) - 1 + k - 1) % NPts) + 1]
Set(s) == /\ n < Steps
          /\ LET w == Wrapped(s)  o == Order(w) IN
             /\ pts' = [k \in 1..NPts |-> w[o[k]]]
             /\ bnds' = FlattenSeq([k \in 1..NPts |-> <<bnds[2*o[k]-1] + 2 * (w[o[k]] - pts[o[k]]), bnds[2*o[k]] + 2 * (w[o[k]] - pts[o[k]])>>])
             /\ data' = [k \in 1..NPts |-> data[o[k]]]
          /\ last' = s /\ n' = n + 1 /\ UNCHANGED src
Next == \E s \in (-West)..East : Set(s)
Spec == Init /\ [][Next]_vars
Half == [std |-> "longitude", pts |-> [k \in 1..NPts |-> 2 * src[k]], bnds |-> Cells(src)]
Got == [std |-> "longitude", pts |-> [k \in 1..NPts |-> 2 * pts[k]], bnds |-> bnds]
Correct == /\ n > 0 => LonAxisOk(Half, Got, 2 * last, 2 * Turn)
           /\ BoundsOk(Half, Got, 2 * Turn)
           /\ ValuesOk(<<Half>>, [k \in 1..NPts |-> 10 * k], <<Got>>, data, 2 * Turn)
           /\ (Increasing(src) => Increasing(pts)) /\ (Decreasing(src) => Decreasing(pts))
=============================================================================
