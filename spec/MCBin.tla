-------------------------------- MODULE MCBin -------------------------------
(* The binning algorithm as the code runs it - a search in the ascending      *)
(* lower bounds of each axis, reversal for descending axes, one number per    *)
(* cell, points sorted by that number, one slice per run of equal numbers -   *)
(* against the declarative cell contents of Bin.                              *)
EXTENDS Bin
CONSTANTS NP, Hi, TurnC, Offs
VARIABLES axes, pts, live, phase, cellno, order, slice, out
vars == <<axes, pts, live, phase, cellno, order, slice, out>>
\* axis one: longitude, two or three cells, possibly with a gap; axis two: two cells
Cells(ws, base, gap) == [c \in 1..Len(ws) |->
     LET lo == base + SumSeq([j \in 1..(c - 1) |-> ws[j]]) + (IF c > 1 THEN gap ELSE 0) IN [lo |-> lo, hi |-> lo + ws[c]]]
Lons == {[std |-> "longitude", cells |-> cs] : cs \in
          {Cells(<<2, 2>>, -2, 0), Cells(<<1, 3>>, 2, 0), Cells(<<1, 2>>, 0, 1), Reverse(Cells(<<2, 2>>, -1, 0)),
           Reverse(Cells(<<1, 1>>, 0, 1))}}
Others == {[std |-> "altitude", cells |-> cs] : cs \in {<<>>, Cells(<<1, 1>>, 0, 0), Reverse(Cells(<<1, 2>>, 0, 0))}}
Init == /\ axes \in {<<a, b>> : a \in Lons, b \in Others}
        /\ pts \in [1..NP -> {<<x, y>> : x \in -Offs..Hi, y \in 0..3}]
        /\ live \in [1..NP -> BOOLEAN]
        /\ phase = "index" /\ cellno = <<>> /\ order = <<>> /\ slice = 1 /\ out = <<>>
Asc(ax) == IF Len(ax.cells) > 1 /\ ax.cells[2].lo < ax.cells[1].lo THEN Reverse(ax.cells) ELSE ax.cells
Descending(ax) == Len(ax.cells) > 1 /\ ax.cells[2].lo < ax.cells[1].lo
\* searchsorted(lower, v, side = right) - 1, zero based; -1 when outside
Search(ax, v) ==
    IF ax.cells = <<>> THEN 0
    ELSE LET cs == Asc(ax)
             w == Rep(ax, v, TurnC)
             k == Cardinality({c \in 1..Len(cs) : cs[c].lo <= w})
         IN  IF k = 0 THEN -1 ELSE IF w < cs[k].hi THEN k - 1 ELSE -1
Slot(ax, v) == LET s == Search(ax, v) IN IF s >= 0 /\ Descending(ax) THEN Len(ax.cells) - 1 - s ELSE s
Index == /\ phase = "index" /\ phase' = "sort"
         /\ cellno' = [k \in 1..NP |-> LET a == Slot(axes[1], pts[k][1])  b == Slot(axes[2], pts[k][2]) IN
                IF a = -1 \/ b = -1 \/ ~live[k] THEN -1 ELSE a + NCells(axes[1]) * b]
         /\ UNCHANGED <<axes, pts, live, order, slice, out>>
Sort == /\ phase = "sort" /\ phase' = "slices"
        /\ order' = SetToSortSeq(1..NP, LAMBDA x, y : cellno[x] < cellno[y] \/ (cellno[x] = cellno[y] /\ x < y))
        /\ UNCHANGED <<axes, pts, live, cellno, slice, out>>
RunEnd(s) == MaxSet({j \in s..NP : \A k \in s..j : cellno[order[k]] = cellno[order[s]]})
Emit == /\ phase = "slices" /\ slice <= NP
        /\ LET e == RunEnd(slice)
               c == cellno[order[slice]] IN
           /\ slice' = e + 1
           /\ out' = IF c = -1 THEN out
                     ELSE Append(out, [u |-> <<(c % NCells(axes[1])) + 1, (c \div NCells(axes[1])) + 1>>,
                                       pts |-> {order[k] : k \in slice..e}])
        /\ UNCHANGED <<axes, pts, live, phase, cellno, order>>
Next == Index \/ Sort \/ Emit
Spec == Init /\ [][Next]_vars
Done == phase = "slices" /\ slice > NP
Correct == Done =>
    LET sh == Shape(axes) IN
    \A p \in 1..Prod(sh) : LET u == Unflat(sh, p)
                               got == UNION {out[j].pts : j \in {j \in 1..Len(out) : out[j].u = u}} IN
      got = {k \in 1..NP : live[k] /\ Inside(axes, u, pts[k], TurnC)}
\* conservation: no point is in two cells, and each point of the grid is in one
Conserved == Done =>
    /\ \A j1, j2 \in 1..Len(out) : j1 # j2 => out[j1].pts \cap out[j2].pts = {} /\ out[j1].u # out[j2].u
    /\ SumSeq([j \in 1..Len(out) |-> Cardinality(out[j].pts)]) =
         Cardinality({k \in 1..NP : live[k] /\ \E p \in 1..Prod(Shape(axes)) : Inside(axes, Unflat(Shape(axes), p), pts[k], TurnC)})
=============================================================================
