--------------------------------- MODULE Bin --------------------------------
(* Binning points into the cells of a rectilinear grid, and the kernels that  *)
(* reduce the values of a cell (GridCellBinIndexInSlices, the collocator      *)
(* GeneralGriddedCollocator, and therefore ungridded aggregation).            *)
(* An axis is [std, cells] with cells a sequence of [lo, hi], in grid order   *)
(* (ascending or descending), or [std, cells = <<>>] for a coordinate that is *)
(* collapsed to one cell holding everything.                                  *)
EXTENDS Grid

NCells(ax) == IF ax.cells = <<>> THEN 1 ELSE Len(ax.cells)
Bottom(ax) == MinSet({ax.cells[c].lo : c \in 1..Len(ax.cells)})
Top(ax) == MaxSet({ax.cells[c].hi : c \in 1..Len(ax.cells)})
\* the representation of a longitude in the turn that starts at the bottom of the grid
Rep(ax, v, Turn) == IF ax.std = "longitude" THEN Bottom(ax) + ((v - Bottom(ax)) % Turn) ELSE v
InCell(ax, c, v, Turn) ==
    \/ ax.cells = <<>>
    \/ LET w == Rep(ax, v, Turn) IN ax.cells[c].lo <= w /\ w < ax.cells[c].hi
\* a point exactly on the upper edge of the whole grid may be counted in the top cell or left out
OnTop(ax, c, v, Turn) ==
    ax.cells # <<>> /\ ax.cells[c].hi = Top(ax) /\ Rep(ax, v, Turn) = Top(ax)

Shape(axes) == [a \in 1..Len(axes) |-> NCells(axes[a])]
\* pv[a]: coordinate of the point along axis a; u: index tuple of the cell
Inside(axes, u, pv, Turn) == \A a \in 1..Len(axes) : InCell(axes[a], u[a], pv[a], Turn)
AtEdge(axes, u, pv, Turn) == \A a \in 1..Len(axes) : InCell(axes[a], u[a], pv[a], Turn) \/ OnTop(axes[a], u[a], pv[a], Turn)

Sum2(s) == SumSeq([k \in 1..Len(s) |-> s[k] * s[k]])
\* got is the observed value in hundredths
MeanOk(s, got) == AbsI(got * Len(s) - 100 * SumSeq(s)) <= Len(s)
StdOk(s, got) == LET n == Len(s)
                     d == n * Sum2(s) - SumSeq(s) * SumSeq(s)       \* n(n-1) times the variance
                 IN  got >= 0 /\ AbsI(got * got * (n * (n - 1)) - 10000 * d) <= (2 * got + 2) * n * (n - 1)
KernelOk(kernel, s, got) ==
    IF s = <<>> THEN \A k \in 1..Len(got) : got[k] = MASKED
    ELSE CASE kernel = "mean" -> MeanOk(s, got[1])
           [] kernel = "sum" -> got[1] = 100 * SumSeq(s)
           [] kernel = "min" -> got[1] = 100 * MinSet({s[k] : k \in 1..Len(s)})
           [] kernel = "max" -> got[1] = 100 * MaxSet({s[k] : k \in 1..Len(s)})
           [] kernel = "stddev" -> IF Len(s) = 1 THEN got[1] = MASKED ELSE StdOk(s, got[1])
           [] kernel = "moments" -> /\ Len(got) = 3 /\ MeanOk(s, got[1]) /\ got[3] = 100 * Len(s)
                                    /\ IF Len(s) = 1 THEN got[2] = MASKED ELSE StdOk(s, got[2])
\* a kernel which is given points: the sum of their values and that of their values times their latitudes (pts are twice the coordinates)
OwnOk(axes, u, pts, vals, got, I) ==
  IF I = <<>> THEN \A k \in 1..Len(got) : got[k] = MASKED
  ELSE LET la == CHOOSE a \in 1..Len(axes) : axes[a].std = "latitude" IN
       got[1] = 100 * SumSeq([j \in 1..Len(I) |-> vals[I[j]]]) /\ got[2] = 50 * SumSeq([j \in 1..Len(I) |-> vals[I[j]] * pts[I[j]][la]])
\* the cell u holds the kernel of its points; pts[k] coordinates, vals[k] value or MASKED
CellOk(kernel, axes, u, pts, vals, got, Turn) ==
    LET live == {k \in 1..Len(vals) : vals[k] # MASKED}
        req == {k \in live : Inside(axes, u, pts[k], Turn)}
        opt == {k \in live \ req : AtEdge(axes, u, pts[k], Turn)}
    IN  \E X \in SUBSET opt :
          LET I == SetToSeq(req \cup X) IN IF kernel = "own" THEN OwnOk(axes, u, pts, vals, got, I) ELSE KernelOk(kernel, [j \in 1..Len(I) |-> vals[I[j]]], got)
=============================================================================
