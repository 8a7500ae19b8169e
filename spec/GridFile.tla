------------------------------ MODULE GridFile ------------------------------
(* Saving a grid in one file, or cut into files along one of its axes, and    *)
(* reading it back.                                                           *)
EXTENDS Grid
\* the part of a grid (axes with points and bounds, values in C order) whose d-th axis runs from lo to hi
ShapeOf(axes) == [k \in 1..Len(axes) |-> Len(axes[k].pts)]
CutAxis(a, lo, hi) == [a EXCEPT !.pts = SubSeq(a.pts, lo, hi), !.bnds = IF a.bnds = <<>> THEN <<>> ELSE SubSeq(a.bnds, 2 * lo - 1, 2 * hi)]
Slab(axes, v, d, lo, hi) ==
  LET ax == [axes EXCEPT ![d] = CutAxis(axes[d], lo, hi)]  sh == ShapeOf(axes)  new == ShapeOf(ax) IN
  [axes |-> ax, v |-> [p \in 1..Prod(new) |-> LET ix == Unflat(new, p) IN v[Flat(sh, [ix EXCEPT ![d] = @ + lo - 1])]]]
\* two parts one behind the other along axis d
JoinParts(a, b, d) ==
  LET A == a.axes[d]  B == b.axes[d]  ax == [a.axes EXCEPT ![d] = [A EXCEPT !.pts = A.pts \o B.pts, !.bnds = A.bnds \o B.bnds]]
      n == Len(A.pts)  sh == ShapeOf(ax)  sa == ShapeOf(a.axes)  sb == ShapeOf(b.axes) IN
  [axes |-> ax, v |-> [p \in 1..Prod(sh) |-> LET ix == Unflat(sh, p) IN
      IF ix[d] <= n THEN a.v[Flat(sa, ix)] ELSE b.v[Flat(sb, [ix EXCEPT ![d] = @ - n])]]]
Turned(g, d) == LET n == Len(g.axes[d].pts)  sh == ShapeOf(g.axes)
                    A == g.axes[d] IN
  [axes |-> [g.axes EXCEPT ![d] = [A EXCEPT !.pts = Reverse(A.pts), !.bnds = Reverse(A.bnds)]],
   v |-> [p \in 1..Prod(sh) |-> LET ix == Unflat(sh, p) IN g.v[Flat(sh, [ix EXCEPT ![d] = n + 1 - @])]]]
\* the cuts of an axis of n points after the given positions
Pieces(n, cuts) == [k \in 1..(Len(cuts) + 1) |-> <<IF k = 1 THEN 1 ELSE cuts[k - 1] + 1, IF k = Len(cuts) + 1 THEN n ELSE cuts[k]>>]
\* files of a single point each do not tell which way the axis ran: it then runs upwards
Undirected(n, cuts) == Len(cuts) = n - 1
Reread(axes, v, d, cuts) ==
  LET g == [axes |-> axes, v |-> v] IN
  IF d = 0 THEN g ELSE IF Undirected(Len(axes[d].pts), cuts) /\ Decreasing(axes[d].pts) /\ Len(axes[d].pts) > 1 THEN Turned(g, d) ELSE g
\* ---- a field of pressure, geopotential or geopotential height in the same file is a coordinate of the others ----
\* its axes are named in the order of the file; those of the coordinate come in the order of the grid
FieldName(kind) == IF kind = "air_pressure" THEN "air_pressure" ELSE "altitude"
InOrder(axes, names) == SelectSeq([k \in 1..Len(axes) |-> k], LAMBDA k : axes[k].std \in ToSet(names))
Rearranged(axes, names, v) ==
  LET to == InOrder(axes, names)
      sh == [j \in 1..Len(to) |-> Len(axes[to[j]].pts)]
      from == [j \in 1..Len(names) |-> Len(axes[AxisOf(axes, names[j])].pts)] IN
  [p \in 1..Len(v) |-> LET ix == Unflat(sh, p) IN v[Flat(from, [j \in 1..Len(names) |-> ix[PosOf(to, AxisOf(axes, names[j]))]])]]
AuxOf(e) == [k \in 1..Len(e.aux) |-> [std |-> e.aux[k].var, dims |-> [j \in 1..Len(e.aux[k].dims) |-> AxisOf(e.axes, e.aux[k].dims[j])], v |-> e.aux[k].v]]
     \o (IF e.field.kind = "" \/ e.field.extra = 1 THEN <<>>
         ELSE << [std |-> FieldName(e.field.kind), dims |-> InOrder(e.axes, e.field.dims), v |-> Rearranged(e.axes, e.field.dims, e.field.v)] >>)
=============================================================================
