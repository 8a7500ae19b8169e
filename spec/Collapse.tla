------------------------------ MODULE Collapse ------------------------------
(* Collapse of a grid along some of its axes: at each point of the remaining  *)
(* axes a kernel over the values which are there. Where latitude is named the *)
(* mean is weighted with the area of the cells. Axis positions are integers;  *)
(* latitude cells begin and end at -90, -30, 0, 30 or 90 so that twice the    *)
(* sine is an integer. Bounds which are not given lie half way.               *)
EXTENDS Grid, Rat
\* doubled positions of the bounds of cell k
Guess2(ax, k) ==
  LET p == ax.pts  n == Len(p)
      lo == IF k > 1 THEN p[k - 1] + p[k] ELSE IF ax.circ THEN (p[1] + p[n]) - 360 ELSE (3 * p[1]) - p[2]
      hi == IF k < n THEN p[k] + p[k + 1] ELSE IF ax.circ THEN p[1] + p[n] + 360 ELSE (3 * p[n]) - p[n - 1]
      clip(x) == IF ax.std = "latitude" THEN MaxSet({-180, MinSet({180, x})}) ELSE x
  IN <<clip(lo), clip(hi)>>
Cell2(ax, k) == IF ax.bnds # <<>> THEN <<2 * ax.bnds[(2 * k) - 1], 2 * ax.bnds[2 * k]>> ELSE Guess2(ax, k)
Sin2(x2) == CASE x2 = -180 -> -2 [] x2 = -60 -> -1 [] x2 = 0 -> 0 [] x2 = 60 -> 1 [] x2 = 180 -> 2
\* the only value of an axis counts the same for every point
Extent(ax, k) == IF Len(ax.pts) = 1 /\ ax.bnds = <<>> THEN 1
                 ELSE LET c == Cell2(ax, k) IN IF ax.std = "latitude" THEN AbsI(Sin2(c[2]) - Sin2(c[1])) ELSE AbsI(c[2] - c[1])
AreaW(axes, ix) == Prod([k \in 1..Len(axes) |-> IF axes[k].std \in {"latitude", "longitude"} THEN Extent(axes[k], ix[k]) ELSE 1])
Shape(axes) == [k \in 1..Len(axes) |-> Len(axes[k].pts)]
\* the axes which are left, in order
Left(axes, D) == SelectSeq([k \in 1..Len(axes) |-> k], LAMBDA k : k \notin D)
LeftShape(axes, D) == LET l == Left(axes, D) IN [k \in 1..Len(l) |-> Len(axes[l[k]].pts)]
\* the positions of the values which fall on a point of what is left
Members(axes, D, cell) ==
  LET l == Left(axes, D)  sh == Shape(axes)  at == Unflat(LeftShape(axes, D), cell) IN
  SelectSeq([p \in 1..Prod(sh) |-> p], LAMBDA p : LET ix == Unflat(sh, p) IN \A k \in 1..Len(l) : ix[l[k]] = at[k])
There(v, ps) == SelectSeq(ps, LAMBDA p : v[p] # MASKV)
WMean(axes, v, ps, weighted) ==
  LET a == There(v, ps)
      w(p) == IF weighted THEN <<AreaW(axes, Unflat(Shape(axes), p)), 1>> ELSE <<1, 1>>
  IN IF a = <<>> THEN MASKV ELSE RTimes(RSum([k \in 1..Len(a) |-> RTimes(v[a[k]], w(a[k]))]), RInv(RSum([k \in 1..Len(a) |-> w(a[k])])))
Best(v, a, sign) == CHOOSE x \in {v[a[k]] : k \in 1..Len(a)} : \A j \in 1..Len(a) : sign * RCmp(x, v[a[j]]) >= 0
\* squared corrected sample deviation
Var(v, a) == LET m == RTimes(RSum([k \in 1..Len(a) |-> v[a[k]]]), <<1, Len(a)>>) IN
             RTimes(RSum([k \in 1..Len(a) |-> RPow(RPlus(v[a[k]], RNeg(m)), 2)]), <<1, Len(a) - 1>>)
Kernel(kind, axes, v, ps, weighted) ==
  LET a == There(v, ps) IN
  IF kind = "count" THEN <<Len(a), 1>>
  ELSE IF a = <<>> THEN MASKV
  ELSE CASE kind = "mean" -> WMean(axes, v, ps, weighted)
         [] kind = "sum" -> RSum([k \in 1..Len(a) |-> v[a[k]]])
         [] kind = "min" -> Best(v, a, -1)
         [] kind = "max" -> Best(v, a, 1)
         [] kind = "var" -> IF Len(a) = 1 THEN UND ELSE Var(v, a)
Collapsed(kind, axes, D, v, weighted) == [c \in 1..Prod(LeftShape(axes, D)) |-> Kernel(kind, axes, v, Members(axes, D, c), weighted)]
\* a coordinate over the axes dims: its mean along those which go
AuxLeft(a, axes, D) ==
  LET sub == [k \in 1..Len(a.dims) |-> axes[a.dims[k]]]
      gone == {k \in 1..Len(a.dims) : a.dims[k] \in D}
  IN Collapsed("mean", sub, gone, [k \in 1..Len(a.v) |-> Int2R(a.v[k])], FALSE)
NewDims(a, D) == LET l == SelectSeq(a.dims, LAMBDA d : d \notin D) IN [k \in 1..Len(l) |-> l[k] - Cardinality({d \in D : d < l[k]})]
Kept(a, D) == a.dims = <<>> \/ \E k \in 1..Len(a.dims) : a.dims[k] \notin D
=============================================================================
