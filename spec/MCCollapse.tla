----------------------------- MODULE MCCollapse -----------------------------
(* The values are taken one after the other, each into the running results of *)
(* the point of the remaining axes it falls on.                               *)
EXTENDS Collapse
CONSTANTS MaxV
Lat == {[std |-> "latitude", pts |-> <<-60, 0, 60>>, bnds |-> <<>>, circ |-> FALSE], [std |-> "latitude", pts |-> <<45, -10>>, bnds |-> <<90, 0, 0, -90>>, circ |-> FALSE],
        [std |-> "latitude", pts |-> <<10>>, bnds |-> <<>>, circ |-> FALSE]}
Lon == {[std |-> "longitude", pts |-> <<0, 10>>, bnds |-> <<>>, circ |-> FALSE], [std |-> "longitude", pts |-> <<0, 20>>, bnds |-> <<>>, circ |-> TRUE]}
Oth == {[std |-> "time", pts |-> <<1, 2>>, bnds |-> <<>>, circ |-> FALSE]}
Grids == {<<a, b>> : a \in Lat, b \in Lon} \cup {<<b, a>> : a \in Lat, b \in Lon} \cup {<<a, c>> : a \in Lat, c \in Oth}
VARIABLES axes, dims, v, p, acc
vars == <<axes, dims, v, p, acc>>
None == [n |-> 0, s |-> 0, w |-> 0, ws |-> 0, lo |-> 0, hi |-> 0]
Init == /\ axes \in Grids /\ dims \in (SUBSET {1, 2}) \ {{}}
        /\ v \in [1..Prod(Shape(axes)) -> {MASKV} \cup {<<x, 1>> : x \in 0..MaxV}]
        /\ p = 1 /\ acc = [c \in 1..Prod(LeftShape(axes, dims)) |-> None]
Target == LET ix == Unflat(Shape(axes), p)  l == Left(axes, dims) IN Flat(LeftShape(axes, dims), [k \in 1..Len(l) |-> ix[l[k]]])
Take == /\ p <= Len(v) /\ p' = p + 1
        /\ acc' = (IF v[p] = MASKV THEN acc
                   ELSE LET x == v[p][1]  w == AreaW(axes, Unflat(Shape(axes), p))  o == acc[Target] IN
                        [acc EXCEPT ![Target] = [n |-> o.n + 1, s |-> o.s + x, w |-> o.w + w, ws |-> o.ws + (w * x),
                                                 lo |-> IF o.n = 0 \/ x < o.lo THEN x ELSE o.lo, hi |-> IF o.n = 0 \/ x > o.hi THEN x ELSE o.hi]])
        /\ UNCHANGED <<axes, dims, v>>
Next == Take
Done == p > Len(v)
Is(kind, c, weighted) == Collapsed(kind, axes, dims, v, weighted)[c]
TypeOK == p \in 1..(Len(v) + 1)
Agree == Done => \A c \in 1..Len(acc) : LET o == acc[c] IN
           /\ Is("count", c, FALSE) = <<o.n, 1>>
           /\ Is("mean", c, FALSE) = (IF o.n = 0 THEN MASKV ELSE Norm(o.s, o.n))
           /\ Is("mean", c, TRUE) = (IF o.n = 0 THEN MASKV ELSE Norm(o.ws, o.w))
           /\ Is("sum", c, FALSE) = (IF o.n = 0 THEN MASKV ELSE <<o.s, 1>>)
           /\ Is("min", c, FALSE) = (IF o.n = 0 THEN MASKV ELSE <<o.lo, 1>>)
           /\ Is("max", c, FALSE) = (IF o.n = 0 THEN MASKV ELSE <<o.hi, 1>>)
\* a mean lies between the extremes, and every value falls on one point
Between == Done => \A c \in 1..Len(acc) : acc[c].n > 0 => RCmp(Is("mean", c, TRUE), <<acc[c].lo, 1>>) >= 0 /\ RCmp(Is("mean", c, TRUE), <<acc[c].hi, 1>>) <= 0
Parts == (p = 1) => \A x \in 1..Len(v) : Cardinality({c \in 1..Len(acc) : x \in ToSet(Members(axes, dims, c))}) = 1
\* one after the other is the same as at once for sums and extremes
Twice == (Done /\ dims = {1, 2}) =>
   LET one == Collapsed("max", axes, {2}, v, FALSE) IN Collapsed("max", <<axes[1]>>, {1}, one, FALSE) = Collapsed("max", axes, {1, 2}, v, FALSE)
\* the whole world
Sphere == (p = 1 /\ \E k \in 1..Len(axes) : axes[k].std = "latitude" /\ Len(axes[k].pts) > 1) =>
   LET k == AxisOf(axes, "latitude") IN SumSeq([j \in 1..Len(axes[k].pts) |-> Extent(axes[k], j)]) = 4
Spec == Init /\ [][Next]_vars
=============================================================================
