------------------------------ MODULE MCSubset ------------------------------
(* The selection algorithm as the code runs it - one variable of a list at a  *)
(* time, longitudes outside the limits moved up by whole turns, one mask      *)
(* computed on the first variable and reused - against the declarative        *)
(* selection of Subset.  Longitudes in units of 30 degrees.                   *)
EXTENDS Subset
CONSTANTS NV, West, LonMax
LonMin == -West
Turn == 12
VARIABLES lons, lats, lo, hi, vi, cur, mask, hasmask, out
vars == <<lons, lats, lo, hi, vi, cur, mask, hasmask, out>>
N == 2
Lims == <<[std |-> "longitude", lo |-> lo, hi |-> hi], [std |-> "latitude", lo |-> 0, hi |-> 1]>>
Coords == <<[std |-> "latitude", v |-> lats], [std |-> "longitude", v |-> lons]>>

Init == /\ lons \in [1..N -> LonMin..LonMax] /\ lats \in [1..N -> 0..2]
        /\ lo \in LonMin..LonMax /\ hi \in {h \in LonMin..LonMax : lo <= h /\ h <= lo + Turn}
        /\ vi = 1 /\ cur = <<>> /\ mask = <<>> /\ hasmask = FALSE /\ out = <<>>
\* copy the next variable and move its longitudes
CeilDiv(a, b) == -((-a) \div b)
Fix(v) == IF lo <= v /\ v <= hi THEN v ELSE v + Turn * CeilDiv(lo - v, Turn)
Copy == /\ vi <= NV /\ cur = <<>>
        /\ cur' = [k \in 1..N |-> Fix(lons[k])]
        /\ UNCHANGED <<lons, lats, lo, hi, vi, mask, hasmask, out>>
MakeMask == /\ cur # <<>> /\ ~hasmask
            /\ mask' = [k \in 1..N |-> lo <= cur[k] /\ cur[k] <= hi /\ 0 <= lats[k] /\ lats[k] <= 1]
            /\ hasmask' = TRUE /\ UNCHANGED <<lons, lats, lo, hi, vi, cur, out>>
Select == /\ cur # <<>> /\ hasmask
          /\ LET idx == Where(N, LAMBDA k : mask[k]) IN
             out' = Append(out, [idx |-> idx, lon |-> Pick(cur, idx)])
          /\ vi' = vi + 1 /\ cur' = <<>> /\ UNCHANGED <<lons, lats, lo, hi, mask, hasmask>>
Next == Copy \/ MakeMask \/ Select
Spec == Init /\ [][Next]_vars
Correct == \A j \in 1..Len(out) :
    /\ out[j].idx = Selected(Coords, Lims, N, Turn)
    /\ \A k \in 1..Len(out[j].idx) : CoordReported(Coords, Lims, "longitude", out[j].idx[k], out[j].lon[k], Turn)
InputKept == [][UNCHANGED <<lons, lats>>]_vars
=============================================================================
