------------------------------- MODULE MCPlot -------------------------------
(* Drawing layers one after the other: values are painted row by row in the   *)
(* order of the data, counted one by one by comparing with the edges of bins, *)
(* and the axis is turned over at most once. The result is the picture of the *)
(* declaration, whichever way round the data is stored.                       *)
EXTENDS Plot
CONSTANTS Big
T0 == 8 * DayNo(2001, 2, 27)
Pts(std, n, up) == LET s == CASE std = "latitude" -> <<-16, 0, 48>> [] std = "longitude" -> <<0, 960, 1920>> [] std = "time" -> <<T0, T0 + 16, T0 + 32>> [] OTHER -> <<80, 160, 400>>
                       t == SubSeq(s, 1, n) IN IF up THEN t ELSE [k \in 1..n |-> t[n + 1 - k]]
C(std, n, up, dim) == [std |-> std, v |-> Pts(std, n, up), edges |-> <<>>, dim |-> dim]
L(kind, shape, cs, v, m, how) == [kind |-> kind, shape |-> shape, coords |-> cs, v |-> v, m |-> m, name |-> "v", long |-> "", units |-> "", how |-> how, label |-> "", style |-> ""]
Stds == {"latitude", "longitude", "time", "air_pressure"}
Ups == IF Big THEN {<<TRUE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>} ELSE {<<TRUE, TRUE>>, <<FALSE, TRUE>>}
Two == {L("grid", <<na, nb>>, <<C(p[1], na, u[1], 1), C(p[2], nb, u[2], 2)>>, [k \in 1..(na * nb) |-> k * k], m, h) :
          p \in {q \in Stds \X Stds : q[1] # q[2]}, na \in {2, 3}, nb \in {2, 3}, u \in Ups, m \in {<<>>}, h \in {"heatmap", "contour"}}
Three == {L("grid", <<1, 2, 3>>, <<C("time", 1, TRUE, 1), C(p[1], 2, TRUE, 2), C(p[2], 3, TRUE, 3)>>, [k \in 1..6 |-> k], <<0, 1, 0, 0, 0, 0>>, "heatmap") : p \in {q \in (Stds \ {"time"}) \X (Stds \ {"time"}) : q[1] # q[2]}}
Track == {L("points", <<3>>, <<C("latitude", 3, TRUE, 1), C("longitude", 3, FALSE, 1), C("air_pressure", 3, TRUE, 1)>>, v, m, h) :
            v \in {<<0, 8, 16>>, <<4, 4, 4>>, <<-7, 9, 1>>} \cup (IF Big THEN {<<a, b, 9>> : a, b \in {-7, 1, 3, 9}} ELSE {}), m \in {<<>>, <<0, 1, 0>>}, h \in {"line", "histogram", "scatter2d"}}
E(ls, x, y) == [call |-> "multi", how |-> "", layers |-> ls, xaxis |-> x, yaxis |-> y, xbins |-> 4, ybins |-> 4]
Ok(d, x, y) == (x = "" \/ (Has(d, x) /\ Wide(d, Named(d, x)))) /\ (y = "" \/ (Has(d, y) /\ Wide(d, Named(d, y))))
               /\ (x = "" \/ y = "" \/ d.coords[Named(d, x)].dim # d.coords[Named(d, y)].dim)
Confs == {c \in {E(<<d>>, x, y) : d \in Two \cup Three, x \in Stds \cup {""}, y \in Stds \cup {""}} : Ok(c.layers[1], c.xaxis, c.yaxis)}
         \cup {E(<<d, f>>, x, y) : d \in Track, f \in (IF Big THEN Track ELSE {t \in Track : t.m = <<>>}), x \in {"", "latitude"}, y \in {"", "air_pressure"}}
VARIABLES e, k, p, paint, tally, down, lines
vars == <<e, k, p, paint, tally, down, lines>>
Init == e \in Confs /\ k = 0 /\ p = 1 /\ paint = {} /\ tally = <<>> /\ down = FALSE /\ lines = <<>>
D == e.layers[k]
Begin == /\ k < Len(e.layers) /\ (IF k = 0 THEN TRUE ELSE p > Len(D.v))
         /\ LET d == e.layers[k + 1]  t == Kind(e, d) IN
            /\ tally' = (IF t = "histogram" THEN [b \in 1..4 |-> 0] ELSE tally)
            /\ lines' = (IF t = "line" THEN Append(lines, <<>>) ELSE lines)
            /\ down' = (down \/ (YOf(e, d).std = "air_pressure" /\ (t \in Deep \/ e.yaxis # "")))
         /\ k' = k + 1 /\ p' = 1 /\ paint' = {} /\ UNCHANGED e
\* place p of the data, as indices along its two dimensions which are not single
RowsCols == LET n == D.shape[Dims(D)[2]] IN <<((p - 1) \div n) + 1, ((p - 1) % n) + 1>>
Along(c) == IF c.dim = Dims(D)[1] THEN RowsCols[1] ELSE RowsCols[2]
Cell == LET cx == XOf(e, D)  cy == YOf(e, D)  x == Edges(cx)  y == Edges(cy)  i == Along(cx)  j == Along(cy) IN
        Sort2(x[i], x[i + 1]) \o Sort2(y[j], y[j + 1]) \o <<D.v[p]>>
Missing == D.m # <<>> /\ D.m[p] = 1
\* the last edge which is not above the value, and the last bin for the last edge
Search == LET ed == BinEdges(Here(D), 4)  b == MaxSet({j \in 1..5 : ed[j] <= 4 * D.v[p]}) IN IF b = 5 THEN 4 ELSE b
Draw == /\ k > 0 /\ p <= Len(D.v) /\ p' = p + 1
        /\ paint' = (IF Kind(e, D) = "heatmap" /\ ~Missing THEN paint \cup {Cell} ELSE paint)
        /\ tally' = (IF Kind(e, D) = "histogram" /\ ~Missing THEN [tally EXCEPT ![Search] = @ + 1] ELSE tally)
        /\ lines' = (IF Kind(e, D) = "line" THEN [lines EXCEPT ![Len(lines)] = Append(@, <<XOf(e, D).v[p], IF e.yaxis # "" THEN YOf(e, D).v[p] ELSE IF Missing THEN MASKED ELSE D.v[p]>>)] ELSE lines)
        /\ UNCHANGED <<e, k, down>>
Next == Begin \/ Draw
Done == k > 0 /\ p > Len(D.v)
\* ---- invariants ----
Painted == (Done /\ Kind(e, D) = "heatmap") => paint = Mesh(e, D)
Counted == (Done /\ Kind(e, D) = "histogram") => tally = Counts(Here(D), 4) /\ SumSeq(tally) = Len(Here(D))
Followed == (Done /\ k = Len(e.layers)) => lines = [j \in 1..Len(Of(e, {"line"})) |-> Series(e, Of(e, {"line"})[j])]
Direction == (Done /\ k = Len(e.layers)) => down = Downward(e)
Flats(d) == d.kind = "grid"
\* two axes of a grid are never along the same dimension, and an axis which was named is that one
Apart == (k = 0 /\ Flats(e.layers[1])) => LET d == e.layers[1] IN
  /\ XOf(e, d).dim # YOf(e, d).dim
  /\ (e.xaxis # "" => XOf(e, d).std = e.xaxis) /\ (e.yaxis # "" => YOf(e, d).std = e.yaxis)
  /\ Wide(d, Axis(d, "X", e.xaxis, e.yaxis)) /\ Wide(d, Axis(d, "Y", e.yaxis, e.xaxis))
\* every value has a cell of its own, and the cells are next to each other
Tiles == (k = 0 /\ Flats(e.layers[1])) => LET d == e.layers[1]  m == Mesh(e, d)  x == Edges(XOf(e, d))  y == Edges(YOf(e, d)) IN
  /\ Cardinality(m) = Len(Here(d))
  /\ FoldSet(LAMBDA c, s : s + (c[2] - c[1]) * (c[4] - c[3]), 0, Mesh(e, [d EXCEPT !.m = <<>>])) = AbsI(x[Len(x)] - x[1]) * AbsI(y[Len(y)] - y[1])
\* storing the data the other way round changes nothing in the picture
Turned(d) == LET a == d.shape[1]  b == d.shape[2] IN
  [d EXCEPT !.shape = <<b, a>>, !.coords = <<[d.coords[2] EXCEPT !.dim = 1], [d.coords[1] EXCEPT !.dim = 2]>>,
            !.v = [n \in 1..(a * b) |-> d.v[((((n - 1) % a) * b) + ((n - 1) \div a)) + 1]]]
Transposed == (k = 0 /\ Flats(e.layers[1]) /\ Len(e.layers[1].shape) = 2) => LET d == e.layers[1]  t == Turned(d)
                   cx == XOf(e, d)  cy == YOf(e, d)  n == [e EXCEPT !.xaxis = cx.std, !.yaxis = cy.std] IN
  /\ Mesh(n, d) = Mesh(n, t) /\ Lattice(n, d) = Lattice(n, t) /\ Mesh(n, d) = Mesh(e, d)
\* named the other way round, the picture is turned
Exchanged == (k = 0 /\ Flats(e.layers[1]) /\ e.xaxis # "" /\ e.yaxis # "") => LET d == e.layers[1]  n == [e EXCEPT !.xaxis = e.yaxis, !.yaxis = e.xaxis] IN
  Mesh(n, d) = {<<c[3], c[4], c[1], c[2], c[5]>> : c \in Mesh(e, d)}
\* the first longitude is repeated once all the way round
Round == (k = 0 /\ Flats(e.layers[1])) => LET d == e.layers[1]  x == XOf(e, d) IN
  AllRound(x) => /\ \A c \in Lattice(e, d) : c[1] = x.v[1] => \E j \in {-1, 1} : <<c[1] + (2880 * j), c[2], c[3]>> \in Lattice(e, d)
                 /\ Cardinality(Lattice(e, d)) = Len(Here(d)) + Cardinality({c \in Lattice(e, d) : c[1] = x.v[1]})
Spec == Init /\ [][Next]_vars
=============================================================================
