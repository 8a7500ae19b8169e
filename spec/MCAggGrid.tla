------------------------------ MODULE MCAggGrid -----------------------------
(* Growing a grid cell by cell from the start of the range until its end is   *)
(* covered gives exactly the declared cells: they tile the range, none lies   *)
(* wholly beyond the end.                                                     *)
EXTENDS AggGrid
CONSTANTS N
VARIABLES lo, hi, step, cells
vars == <<lo, hi, step, cells>>
Init == lo \in -N..N /\ hi \in {h \in -N..(2*N) : h > lo} /\ step \in 1..N /\ cells = <<>>
End == IF cells = <<>> THEN lo ELSE cells[Len(cells)].hi
Grow == /\ End < hi /\ cells' = Append(cells, [lo |-> End, hi |-> End + step]) /\ UNCHANGED <<lo, hi, step>>
Spec == Init /\ [][Grow]_vars
Done == End >= hi
G == [std |-> "altitude", lo |-> lo, hi |-> hi, step |-> step]
Ax == [pts |-> [k \in 1..Len(cells) |-> cells[k].lo + cells[k].hi],
       bnds |-> [k \in 1..(2 * Len(cells)) |-> IF k % 2 = 1 THEN 2 * cells[(k + 1) \div 2].lo ELSE 2 * cells[k \div 2].hi]]
Tiles == Done => AxisPoints(G, Ax, lo, hi) /\ AxisBounds(G, Ax, lo, hi, 1000)
Covered == Done => \A v \in lo..(hi - 1) :
             Cardinality({k \in 1..Len(cells) : cells[k].lo <= v /\ v < cells[k].hi}) = 1
NoneBeyond == \A k \in 1..Len(cells) : cells[k].lo < hi
=============================================================================
