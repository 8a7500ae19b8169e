----------------------------- MODULE SubsetGrid -----------------------------
(* Subsetting of gridded data (GriddedSubsetConstraint).                      *)
(* On latitude and longitude axes cell bounds count: a cell that overlaps the *)
(* limits is kept; on other axes, and without bounds, the points decide.      *)
EXTENDS Subset, Grid

Angular(std) == std \in {"latitude", "longitude"}
\* grid points that have to be kept / that may be kept (cells that only touch a limit)
MustKeep(ax, lim, k, Turn) ==
    LET lo == Lo([v |-> ax.pts], lim)  hi == Hi([v |-> ax.pts], lim) IN
    IF ~Angular(ax.std) THEN lo <= ax.pts[k] /\ ax.pts[k] <= hi
    ELSE \/ LonIn(ax.pts[k], lo, hi, Turn)
         \/ /\ ax.bnds # <<>>
            /\ \E t \in Turns : LET b1 == ax.bnds[2*k-1] + t * Turn  b2 == ax.bnds[2*k] + t * Turn IN
                 MinSet({b1, b2}) < hi /\ lo < MaxSet({b1, b2})
MayKeep(ax, lim, k, Turn) ==
    LET lo == Lo([v |-> ax.pts], lim)  hi == Hi([v |-> ax.pts], lim) IN
    \/ MustKeep(ax, lim, k, Turn)
    \/ /\ Angular(ax.std) /\ ax.bnds # <<>>
       /\ \E t \in Turns : LET b1 == ax.bnds[2*k-1] + t * Turn  b2 == ax.bnds[2*k] + t * Turn IN
            MinSet({b1, b2}) <= hi /\ lo <= MaxSet({b1, b2})
LimsOf(lims, std) == {j \in 1..Len(lims) : lims[j].std = std}
Must(ax, lims, Turn) == {k \in 1..Len(ax.pts) : \A j \in LimsOf(lims, ax.std) : MustKeep(ax, lims[j], k, Turn)}
May(ax, lims, Turn) == {k \in 1..Len(ax.pts) : \A j \in LimsOf(lims, ax.std) : MayKeep(ax, lims[j], k, Turn)}

\* the grid index a reported axis value stands for (0: none)
IndexOf(ax, x, Turn) ==
    LET K == {k \in 1..Len(ax.pts) : ax.pts[k] = x \/ (ax.std = "longitude" /\ (x - ax.pts[k]) % Turn = 0)}
    IN  IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE
IndexSeq(ax, got, Turn) == [k \in 1..Len(got) |-> IndexOf(ax, got[k], Turn)]

\* an axis of the result selects the right grid points, in grid order, on the requested range
AxisOk(ax, g, lims, Turn) ==
    LET ix == IndexSeq(ax, g.pts, Turn)
        S == {ix[k] : k \in 1..Len(ix)}
    IN  /\ 0 \notin S /\ Cardinality(S) = Len(ix)
        /\ Must(ax, lims, Turn) \subseteq S /\ S \subseteq May(ax, lims, Turn)
        /\ IF ax.std = "longitude" THEN Increasing(g.pts) \/ Decreasing(g.pts) ELSE Increasing(ix)
        /\ (LimsOf(lims, ax.std) = {} => g.pts = ax.pts)
        /\ (ax.std = "longitude" /\ ax.bnds = <<>>) =>
              \A j \in LimsOf(lims, ax.std) : \A k \in 1..Len(g.pts) :
                  Lo([v |-> ax.pts], lims[j]) <= g.pts[k] /\ g.pts[k] <= Hi([v |-> ax.pts], lims[j])
\* bounds of the kept cells move with their points
BoundsOk(ax, g, Turn) ==
    IF ax.bnds = <<>> THEN g.bnds = <<>>
    ELSE LET ix == IndexSeq(ax, g.pts, Turn) IN
         /\ Len(g.bnds) = 2 * Len(g.pts)
         /\ \A k \in 1..Len(ix) : LET d == g.pts[k] - ax.pts[ix[k]] IN
              {g.bnds[2*k-1] - d, g.bnds[2*k] - d} = {ax.bnds[2*ix[k]-1], ax.bnds[2*ix[k]]}

\* data: every element of the result is the element of the source at the kept grid point
ValuesOk(axes, src, gaxes, got, Turn) ==
    LET shape == [a \in 1..Len(axes) |-> Len(axes[a].pts)]
        gshape == [a \in 1..Len(axes) |-> Len(gaxes[a].pts)]
        ix == [a \in 1..Len(axes) |-> IndexSeq(axes[a], gaxes[a].pts, Turn)]
    IN  /\ Len(got) = Prod(gshape)
        /\ \A p \in 1..Len(got) : LET u == Unflat(gshape, p) IN
              got[p] = src[Flat(shape, [a \in 1..Len(axes) |-> ix[a][u[a]]])]
=============================================================================
