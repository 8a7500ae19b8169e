-------------------------------- MODULE Shape -------------------------------
(* Polygons with integer vertices: a sequence of rings, each a sequence of    *)
(* <<x, y>>; even-odd rule, so later rings are holes or separate parts.       *)
EXTENDS SubsetGrid
Edges(ring) == {<<ring[k], ring[(k % Len(ring)) + 1]>> : k \in 1..Len(ring)}
OnEdge(e, p) ==
    LET a == e[1]  b == e[2] IN
    /\ (b[1] - a[1]) * (p[2] - a[2]) = (p[1] - a[1]) * (b[2] - a[2])
    /\ MinSet({a[1], b[1]}) <= p[1] /\ p[1] <= MaxSet({a[1], b[1]})
    /\ MinSet({a[2], b[2]}) <= p[2] /\ p[2] <= MaxSet({a[2], b[2]})
\* the ray from p towards +x crosses the edge
Crosses(e, p) ==
    LET a == e[1]  b == e[2] IN
    /\ (a[2] > p[2]) # (b[2] > p[2])
    /\ IF b[2] > a[2] THEN (p[1] - a[1]) * (b[2] - a[2]) < (p[2] - a[2]) * (b[1] - a[1])
       ELSE (p[1] - a[1]) * (b[2] - a[2]) > (p[2] - a[2]) * (b[1] - a[1])
Crossings(ring, p) == Cardinality({k \in 1..Len(ring) : Crosses(<<ring[k], ring[(k % Len(ring)) + 1]>>, p)})
OnBoundary(poly, p) == \E r \in 1..Len(poly) : \E e \in Edges(poly[r]) : OnEdge(e, p)
RECURSIVE AllCrossings(_, _)
AllCrossings(poly, p) == IF poly = <<>> THEN 0 ELSE Crossings(Head(poly), p) + AllCrossings(Tail(poly), p)
\* strictly inside
Inside(poly, p) == ~OnBoundary(poly, p) /\ AllCrossings(poly, p) % 2 = 1
Verts(poly) == UNION {{poly[r][k] : k \in 1..Len(poly[r])} : r \in 1..Len(poly)}
MinX(poly) == MinSet({p[1] : p \in Verts(poly)})
MaxX(poly) == MaxSet({p[1] : p \in Verts(poly)})
MinY(poly) == MinSet({p[2] : p \in Verts(poly)})
MaxY(poly) == MaxSet({p[2] : p \in Verts(poly)})
\* the limits a shape implies
BoxLims(poly) == <<[std |-> "longitude", lo |-> MinX(poly), hi |-> MaxX(poly)],
                   [std |-> "latitude", lo |-> MinY(poly), hi |-> MaxY(poly)]>>
\* some representation of the longitude is inside
InsideMod(poly, x, y, Turn) == \E t \in Turns : Inside(poly, <<x + t * Turn, y>>)
=============================================================================
