-------------------------------- MODULE Plot --------------------------------
(* What a plot shows. A layer is data with coordinates; a picture is the set  *)
(* of marks, the axes they are drawn against, labels, limits and direction.   *)
(* Numbers are in eighths; times are in eighths of days since 1600, and are   *)
(* drawn as days since 1970.                                                  *)
EXTENDS Calendar, Stats
NOC == 0
Epoch == 8 * DayNo(1970, 1, 1)
OnAxis(c, n) == IF c.std = "time" THEN n - Epoch ELSE n
Drawn(c) == [k \in 1..Len(c.v) |-> OnAxis(c, c.v[k])]
Cells1(c) == Len(c.v)
Edges(c) ==
  LET n == Len(c.v)  p(k) == c.v[k] IN
  IF c.edges # <<>> THEN [k \in 1..(n + 1) |-> OnAxis(c, c.edges[k])]
  ELSE [k \in 1..(n + 1) |-> OnAxis(c, LET e == IF k = 1 THEN p(1) - ((p(2) - p(1)) \div 2)
                                       ELSE IF k = n + 1 THEN p(n) + ((p(n) - p(n - 1)) \div 2) ELSE (p(k - 1) + p(k)) \div 2 IN
                                       IF c.std = "latitude" THEN (IF e > 720 THEN 720 ELSE IF e < -720 THEN -720 ELSE e) ELSE e)]   \* never over the pole
\* ---------------------------------------------------------------- axes
Dims(d) == Where(Len(d.shape), LAMBDA k : d.shape[k] > 1)
Named(d, n) == CHOOSE k \in 1..Len(d.coords) : d.coords[k].std = n
Has(d, n) == \E k \in 1..Len(d.coords) : d.coords[k].std = n
Wide(d, k) == Len(d.coords[k].v) > 1
Natural(a) == IF a = "X" THEN "longitude" ELSE "latitude"
Other(a) == IF a = "X" THEN "Y" ELSE "X"
Guess(d, a) == IF Has(d, Natural(a)) /\ Wide(d, Named(d, Natural(a))) THEN Named(d, Natural(a)) ELSE NOC
First(d, P(_)) == LET s == {k \in 1..Len(d.coords) : P(k)} IN IF s = {} THEN NOC ELSE MinSet(s)
Axis(d, a, name, other) ==
  IF name # "" THEN Named(d, name)
  ELSE LET g == Guess(d, a) IN
  IF d.kind = "points" \/ Len(Dims(d)) # 2
  THEN (IF g # NOC THEN g ELSE IF d.kind = "points" THEN 1 ELSE First(d, LAMBDA k : Wide(d, k)))
  ELSE LET oc == IF other # "" THEN Named(d, other) ELSE Guess(d, Other(a))
           od == IF oc # NOC THEN d.coords[oc].dim ELSE IF a = "X" THEN Dims(d)[2] ELSE Dims(d)[1]
       IN IF g # NOC /\ ~(other # "" /\ d.coords[g].dim = od) THEN g
          ELSE LET f == First(d, LAMBDA k : Wide(d, k) /\ d.coords[k].dim # od) IN IF f # NOC THEN f ELSE g
XOf(e, d) == d.coords[Axis(d, "X", e.xaxis, e.yaxis)]
YOf(e, d) == d.coords[Axis(d, "Y", e.yaxis, e.xaxis)]
\* ---------------------------------------------------------------- kinds of plot
Flat == {"line", "scatter", "histogram"}
Deep == {"heatmap", "contour", "contourf", "scatter2d"}
Pair == {"comparativescatter", "histogram2d"}
Kinds == Flat \cup Deep \cup Pair \cup {"taylor"}
IsPair(e) == e.call = "against" \/ e.how \in Pair
Kind(e, d) ==
  IF e.how \in Pair \cup {"taylor"} THEN e.how
  ELSE IF d.how # "" THEN d.how ELSE IF e.how # "" THEN e.how
  ELSE IF e.call = "against" THEN "comparativescatter"
  ELSE IF d.kind = "points" THEN (IF XOf(e, d).std = "longitude" /\ YOf(e, d).std = "latitude" THEN "scatter2d" ELSE "line")
  ELSE CASE Len(Dims(d)) = 1 -> "line" [] Len(Dims(d)) = 2 -> "heatmap" [] OTHER -> "none"
LineStyles == {"solid", "dashed", "dashdot", "dotted"}
HistStyles == {"bar", "step", "stepfilled"}
Refused(e) ==
  \/ e.nopts # ABSENT /\ e.nopts # Len(e.layers)
  \/ e.how \in Pair /\ e.call # "against" /\ Len(e.layers) # 2
  \/ e.call = "against" /\ e.how \notin Pair \cup {""}
  \/ ~IsPair(e) /\ e.how # "taylor" /\ \E k \in 1..Len(e.layers) :
       LET d == e.layers[k] IN \/ Kind(e, d) \notin Kinds
                               \/ Kind(e, d) = "line" /\ d.style # "" /\ d.style \notin LineStyles
                               \/ Kind(e, d) = "histogram" /\ d.style # "" /\ d.style \notin HistStyles
\* ---------------------------------------------------------------- marks
Data(d) == WithMask(d.v, d.m)
Series(e, d) ==
  LET x == Drawn(XOf(e, d))  y == IF e.yaxis # "" THEN Drawn(YOf(e, d)) ELSE Data(d) IN [k \in 1..Len(x) |-> <<x[k], y[k]>>]
Present(s) == SelectSeq(s, LAMBDA t : t[2] # MASKED)
\* the value at place i along the dimension of the x axis and place j along that of the y axis
At(e, d, i, j) ==
  LET n == d.shape[Dims(d)[2]] IN
  IF XOf(e, d).dim = Dims(d)[1] THEN Data(d)[(i - 1) * n + j] ELSE Data(d)[(j - 1) * n + i]
Sort2(a, b) == IF a < b THEN <<a, b>> ELSE <<b, a>>
Mesh(e, d) ==
  LET x == Edges(XOf(e, d))  y == Edges(YOf(e, d)) IN
  {Sort2(x[p[1]], x[p[1] + 1]) \o Sort2(y[p[2]], y[p[2] + 1]) \o <<At(e, d, p[1], p[2])>> :
     p \in {q \in (1..(Len(x) - 1)) \X (1..(Len(y) - 1)) : At(e, d, q[1], q[2]) # MASKED}}
AllRound(c) == LET n == Len(c.v)  s == c.v[2] - c.v[1] IN
  c.std = "longitude" /\ n > 1 /\ (\A k \in 2..n : c.v[k] - c.v[k - 1] = s) /\ AbsI(s) * n = 8 * 360
Closed(c) == IF AllRound(c) THEN Append(Drawn(c), c.v[1] + (IF c.v[2] > c.v[1] THEN 2880 ELSE -2880)) ELSE Drawn(c)
Cloud(e, d) ==
  IF d.kind = "points" THEN LET x == Drawn(XOf(e, d))  y == Drawn(YOf(e, d)) IN
    Where(Len(x), LAMBDA k : Data(d)[k] # MASKED)
  ELSE <<>>
Dots(e, d) == LET s == Cloud(e, d) IN [k \in 1..Len(s) |-> <<Drawn(XOf(e, d))[s[k]], Drawn(YOf(e, d))[s[k]], Data(d)[s[k]]>>]
\* of a grid, with the first longitude repeated after the last where they follow each other
Lattice(e, d) ==
  LET cx == XOf(e, d)  cy == YOf(e, d)  x == Closed(cx)  y == Closed(cy)
      v(i, j) == At(e, d, IF i > Len(cx.v) THEN 1 ELSE i, IF j > Len(cy.v) THEN 1 ELSE j) IN
  {<<x[p[1]], y[p[2]], v(p[1], p[2])>> : p \in {q \in (1..Len(x)) \X (1..Len(y)) : v(q[1], q[2]) # MASKED}}
\* ---------------------------------------------------------------- counting
Here(d) == SelectSeq(Data(d), LAMBDA x : x # MASKED)
Low(s) == LET a == MinSet(ToSet(s)) IN IF \A k \in 1..Len(s) : s[k] = a THEN a - 4 ELSE a
High(s) == LET a == MaxSet(ToSet(s)) IN IF \A k \in 1..Len(s) : s[k] = a THEN a + 4 ELSE a
\* edges in n-ths of eighths, and the bin of a value
BinEdges(s, n) == [k \in 1..(n + 1) |-> n * Low(s) + (k - 1) * (High(s) - Low(s))]
BinOf(s, n, x) == IF x = High(s) THEN n ELSE ((n * (x - Low(s))) \div (High(s) - Low(s))) + 1
Counts(s, n) == [k \in 1..n |-> Cardinality({j \in 1..Len(s) : BinOf(s, n, s[j]) = k})]
Joint(a, b) == Where(Len(a.v), LAMBDA k : Data(a)[k] # MASKED /\ Data(b)[k] # MASKED)
Both2(a, b) == LET j == Joint(a, b) IN [k \in 1..Len(j) |-> <<Data(a)[j[k]], Data(b)[j[k]]>>]
Counts2(a, b, n, m) ==
  LET p == Both2(a, b)  s == [k \in 1..Len(p) |-> p[k][1]]  t == [k \in 1..Len(p) |-> p[k][2]]
      x == BinEdges(s, n)  y == BinEdges(t, m)
      c(i, j) == Cardinality({k \in 1..Len(p) : BinOf(s, n, s[k]) = i /\ BinOf(t, m, t[k]) = j}) IN
  {<<x[q[1]], x[q[1] + 1], y[q[2]], y[q[2] + 1], c(q[1], q[2])>> : q \in {r \in (1..n) \X (1..m) : c(r[1], r[2]) > 0}}
\* ---------------------------------------------------------------- words
Name(d) == IF d.long # "" THEN d.long ELSE d.name
Tagged(n, u) == IF u = "" THEN n ELSE n \o " (" \o u \o ")"
Units(std) == CASE std \in {"latitude", "longitude"} -> "degrees" [] std = "altitude" -> "m" [] std = "air_pressure" -> "Pa" [] std = "surface_altitude" -> "m" [] OTHER -> ""
AxisLabel(c) == Tagged(c.std, Units(c.std))
DataLabel(d) == Tagged(Name(d), d.units)
LayerLabel(e, d) == IF d.label # "" THEN d.label ELSE IF e.many THEN Name(d) ELSE DataLabel(d)
XLabel(e) ==
  LET d == e.layers[Len(e.layers)] IN
  IF e.xlabel # "" THEN e.xlabel ELSE IF IsPair(e) THEN Name(e.layers[1])
  ELSE IF Kind(e, d) = "histogram" THEN Name(d) ELSE AxisLabel(XOf(e, d))
YLabel(e) ==
  LET d == e.layers[Len(e.layers)]  t == Kind(e, d) IN
  IF e.ylabel # "" THEN e.ylabel ELSE IF IsPair(e) THEN Name(e.layers[2])
  ELSE IF t = "histogram" THEN "Frequency" ELSE IF t \in Deep \/ e.yaxis # "" THEN AxisLabel(YOf(e, d)) ELSE DataLabel(d)
Of(e, s) == SelectSeq(e.layers, LAMBDA d : Kind(e, d) \in s)
Legend(e) == LET s == Of(e, Flat) IN [k \in 1..Len(s) |-> LayerLabel(e, s[k])]
Bars(e) == IF IsPair(e) THEN (IF e.how = "histogram2d" /\ e.bar THEN <<"Frequency">> ELSE <<>>)
           ELSE LET s == Of(e, Deep) IN IF e.bar THEN [k \in 1..Len(s) |-> LayerLabel(e, s[k])] ELSE <<>>
Title(e) == IF e.title # "" THEN e.title
            ELSE LET s == Of(e, Deep) IN IF ~IsPair(e) /\ ~e.bar /\ s # <<>> THEN LayerLabel(e, s[Len(s)]) ELSE ""
\* ---------------------------------------------------------------- the frame
Downward(e) == ~IsPair(e) /\ e.how # "taylor" /\ \E k \in 1..Len(e.layers) :
  LET d == e.layers[k] IN YOf(e, d).std = "air_pressure" /\ (Kind(e, d) \in Deep \/ (Kind(e, d) \in Flat /\ e.yaxis # ""))
OnMap(e) == ~IsPair(e) /\ e.how # "taylor" /\ LET d == e.layers[1] IN
  Kind(e, d) \in Deep /\ XOf(e, d).std = "longitude" /\ YOf(e, d).std = "latitude"
\* x and y of everything drawn
Reach(e) ==
  IF IsPair(e) THEN (IF Kind(e, e.layers[1]) = "histogram2d" THEN {} ELSE ToSet(Both2(e.layers[1], e.layers[2])))
  ELSE UNION {LET d == e.layers[k]  t == Kind(e, d) IN
              CASE t \in {"line", "scatter"} -> ToSet(Present(Series(e, d)))
                [] t = "heatmap" -> {<<c[1], c[3]>> : c \in Mesh(e, d)} \cup {<<c[2], c[4]>> : c \in Mesh(e, d)}
                [] t \in {"contour", "contourf"} -> {<<c[1], c[2]>> : c \in Lattice(e, d)}
                [] t = "scatter2d" /\ d.kind = "points" -> {<<q[1], q[2]>> : q \in ToSet(Dots(e, d))}
                [] t = "scatter2d" /\ d.kind = "grid" -> {<<c[1], c[2]>> : c \in Lattice(e, d)}
                [] OTHER -> {} : k \in 1..Len(e.layers)}
\* where a map starts, and whether limits lie between its edges in order
Starts(e) == IF e.lims[1] # ABSENT THEN (IF e.lims[1] < 0 THEN -1440 ELSE 0)
             ELSE IF \E k \in 1..Len(e.layers) : \E j \in 1..Len(e.layers[k].coords) :
                       e.layers[k].coords[j].std = "longitude" /\ \E i \in 1..Len(e.layers[k].coords[j].v) : e.layers[k].coords[j].v[i] < 0 THEN -1440 ELSE 0
Size(e) == CASE e.size[1] = ABSENT /\ e.size[2] = ABSENT -> <<96, 72>>
             [] e.size[1] = ABSENT -> <<16 * e.size[2], 12 * e.size[2]>>
             [] e.size[2] = ABSENT -> <<12 * e.size[1], 9 * e.size[1]>>
             [] OTHER -> <<12 * e.size[1], 12 * e.size[2]>>
\* ---------------------------------------------------------------- Taylor diagrams
Taylor(e, k) ==
  LET r == Vals(e.layers[1].v, e.layers[1].m, 8)  s == Vals(e.layers[k].v, e.layers[k].m, 8)
      b == Both(r, s)  own(t) == SelectSeq(t, LAMBDA x : x # MASKV) IN
  [corr |-> Corr([j \in 1..Len(b) |-> s[b[j]]], [j \in 1..Len(b) |-> r[b[j]]]), ratio |-> RDiv(Var1(own(s)), Var1(own(r)))]
=============================================================================
