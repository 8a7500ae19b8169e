------------------------------- MODULE Points -------------------------------
(* Data seen as a list of points. A point is [c, v]: five coordinates, ABSENT *)
(* where it has none, and its values. What is seen is a record d: d.kind "u"  *)
(* has d.cols, five columns, <<>> where there is none, "g" has d.shape,       *)
(* d.names, for each dimension the number of its standard name or 0, and      *)
(* d.pts, the points along it; d.has tells whether there are values, d.vals.  *)
EXTENDS Shapes
Count(d) == Size(d.shape)
CoordAt(d, k, j) ==
  IF d.kind = "u" THEN (IF d.cols[j] = <<>> THEN ABSENT ELSE d.cols[j][k + 1])
  ELSE LET w == {n \in 1..Len(d.shape) : d.names[n] = j} IN
       IF w = {} THEN ABSENT ELSE LET n == CHOOSE x \in w : TRUE IN d.pts[n][Coords(d.shape, k)[n] + 1]
ValAt(d, k) == IF d.has = 1 THEN <<d.vals[k + 1]>> ELSE <<>>
PointAt(d, k) == [c |-> [j \in 1..5 |-> CoordAt(d, k, j)], v |-> ValAt(d, k)]
All(d) == [k \in 1..Count(d) |-> k - 1]
Missing(d, k) == d.has = 1 /\ d.vals[k + 1] = MASKED
NonMissing(d) == SelectSeq(All(d), LAMBDA k : ~Missing(d, k))
PointsAt(d, ks) == [n \in 1..Len(ks) |-> PointAt(d, ks[n])]
Column(d, j) == IF d.kind = "u" THEN d.cols[j]
                ELSE LET w == {n \in 1..Len(d.shape) : d.names[n] = j} IN IF w = {} THEN <<>> ELSE d.pts[CHOOSE x \in w : TRUE]
\* what an operation makes of what is seen
Inside(d, k) == k >= 0 /\ k < Count(d)
Flat(d, o) == IF o.at = <<>> THEN o.k ELSE Place(d.shape, o.at)
Turned(x, s, q) == IF x \in {NANV, MASKED} THEN x ELSE s + ((x - s) % (360 * q))
Apply(d, o) ==
  CASE o.op = "lon" -> IF d.kind = "u" THEN [d EXCEPT !.cols[2] = [n \in 1..Len(@) |-> Turned(@[n], o.k, 1)]]
                       ELSE [d EXCEPT !.pts = [n \in 1..Len(@) |-> IF d.names[n] = 2 THEN [m \in 1..Len(@[n]) |-> Turned(@[n][m], o.k, 1)] ELSE @[n]]]
    [] o.op = "value" /\ Inside(d, Flat(d, o)) -> [d EXCEPT !.vals[Flat(d, o) + 1] = o.v]
    [] o.op = "point" /\ Inside(d, Flat(d, o)) ->
         (IF d.kind = "g" THEN [d EXCEPT !.vals[Flat(d, o) + 1] = o.v]
          ELSE [d EXCEPT !.vals[o.k + 1] = o.v, !.cols = [j \in 1..5 |-> IF @[j] = <<>> THEN <<>> ELSE [@[j] EXCEPT ![o.k + 1] = o.c[j]]]])
    [] OTHER -> d
Refused(d, o) == o.op # "lon" /\ ~Inside(d, Flat(d, o))
RECURSIVE After(_, _)
After(d, os) == IF os = <<>> THEN d ELSE After(Apply(d, Head(os)), Tail(os))
RECURSIVE Refusals(_, _)
Refusals(d, os) == IF os = <<>> THEN <<>> ELSE <<IF Refused(d, Head(os)) THEN 1 ELSE 0>> \o Refusals(Apply(d, Head(os)), Tail(os))
\* single points
Alphabetic == <<4, 3, 1, 2, 5>>
Named(p) == LET ks == SelectSeq(Alphabetic, LAMBDA j : p.c[j] # ABSENT) IN [n \in 1..Len(ks) |-> <<ks[n], p.c[ks[n]]>>]
Changed(p, m) == [c |-> [j \in 1..5 |-> IF m.c[j] = ABSENT THEN p.c[j] ELSE m.c[j]], v |-> IF m.given = 1 THEN m.v ELSE p.v]
SameSpace(p, r) == \A j \in 1..4 : p.c[j] = r.c[j]
SameTime(p, r) == p.c[5] = r.c[5]
Sep(p, r, j) == AbsI(p.c[j] - r.c[j])
\* ratios of pressures: the bigger by the smaller
Greater(a, b) == IF a > b THEN a ELSE b
Lesser(a, b) == IF a > b THEN b ELSE a
RatioBigger(a, b, c, d) == Greater(a, b) * Lesser(c, d) > Greater(c, d) * Lesser(a, b)
\* the angle between points on one meridian or both on the equator
Turn(x) == LET r == x % 360 IN IF r > 180 THEN 360 - r ELSE r
Angle(p, r) == IF p.c[2] = r.c[2] THEN AbsI(p.c[1] - r.c[1]) ELSE Turn(p.c[2] - r.c[2])
OnOneLine(p, r) == p.c[2] = r.c[2] \/ (p.c[1] = 0 /\ r.c[1] = 0)
Opposite(p, o) == o.c[1] = -p.c[1] /\ (o.c[2] - p.c[2] - 180) % 360 = 0 /\ \A j \in 3..5 : o.c[j] = p.c[j]
=============================================================================
