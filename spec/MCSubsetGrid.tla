---------------------------- MODULE MCSubsetGrid ----------------------------
(* The intersection algorithm on one circular axis - wrap every point into    *)
(* [lo, lo+Turn), keep those <= hi, and rotate the axis so that the kept      *)
(* points are contiguous - against AxisOk/ValuesOk, for every regular or      *)
(* irregular axis within one turn.                                            *)
EXTENDS SubsetGrid
CONSTANTS Turn, NPts, West, East
VARIABLES pts, lo, hi, pc, wrapped, start, res
vars == <<pts, lo, hi, pc, wrapped, start, res>>
Init == /\ pts \in {p \in [1..NPts -> (-West)..East] : (Increasing(p) \/ Decreasing(p)) /\ AbsI(p[NPts] - p[1]) < Turn}
        /\ lo \in (-West)..East /\ hi \in lo..(lo + Turn)
        /\ pc = "wrap" /\ wrapped = <<>> /\ start = 0 /\ res = <<>>
Wrap == /\ pc = "wrap"
        /\ wrapped' = [k \in 1..NPts |-> lo + ((pts[k] - lo) % Turn)]
        /\ pc' = "rotate" /\ UNCHANGED <<pts, lo, hi, start, res>>
\* first kept point whose predecessor (cyclically) breaks the monotone run
Inside(k) == wrapped[k] <= hi
Asc == Increasing(pts)
Prev(k) == IF k = 1 THEN NPts ELSE k - 1
Rotate == /\ pc = "rotate"
          /\ LET brk == {k \in 1..NPts : IF Asc THEN wrapped[Prev(k)] >= wrapped[k] ELSE wrapped[Prev(k)] <= wrapped[k]}
             IN start' = MinSet(brk)
          /\ pc' = "take" /\ UNCHANGED <<pts, lo, hi, wrapped, res>>
Take == /\ pc = "take"
        /\ res' = SelectSeq([k \in 1..NPts |-> LET j == ((start - 1 + k - 1) % NPts) + 1 IN <<j, wrapped[j]>>],
                            LAMBDA e : e[2] <= hi)
        /\ pc' = "done" /\ UNCHANGED <<pts, lo, hi, wrapped, start>>
Next == Wrap \/ Rotate \/ Take
Spec == Init /\ [][Next]_vars
Ax == [std |-> "longitude", pts |-> pts, bnds |-> <<>>]
L == <<[std |-> "longitude", lo |-> lo, hi |-> hi]>>
Correct == pc = "done" =>
    LET g == [pts |-> [k \in 1..Len(res) |-> res[k][2]], bnds |-> <<>>] IN
    IF Must(Ax, L, Turn) = {} THEN res = <<>>
    ELSE /\ AxisOk(Ax, g, L, Turn)
         /\ ValuesOk(<<Ax>>, [k \in 1..NPts |-> k], <<g>>, [k \in 1..Len(res) |-> res[k][1]], Turn)
=============================================================================
