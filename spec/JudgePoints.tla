----------------------------- MODULE JudgePoints ----------------------------
(* Recorded views, points and lists of points.                                *)
EXTENDS Points, Calendar, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Sight(e) == [kind |-> e.kind, shape |-> e.shape, names |-> e.names, pts |-> e.pts, cols |-> e.cols, has |-> e.has, vals |-> e.vals]
\* the table of the data as it was made: a column for each coordinate and the values, the times as its index
StdName == <<"latitude", "longitude", "altitude", "air_pressure", "time">>
Filled(v) == [k \in 1..Len(v) |-> IF v[k] = MASKED THEN NANV ELSE v[k]]
Columns(e) == {<<StdName[j], e.cols[j]>> : j \in {n \in 1..4 : e.cols[n] # <<>>}} \cup {<<e.extra[j].name, e.extra[j].v>> : j \in 1..Len(e.extra)}
              \cup (IF e.has = 1 THEN {<<"v", Filled(e.vals)>>} ELSE {})
Since(e) == IF e.tu = "1900" THEN DayNo(1900, 1, 1) ELSE 0
Table(e) ==
  LET o == e.out  n == Size(e.shape)  t == e.cols[5] IN
  UNION {Clause(ToSet(o.frame) = Columns(e) /\ ToSet(o.framed) = Columns(e) /\ Len(o.frame) = Cardinality(Columns(e)) /\ Len(o.framed) = Cardinality(Columns(e)), "table"),
         Clause(o.times = (IF e.tu = "object" THEN <<>> ELSE t), "times in the table"),
         Clause(o.index = (IF t = <<>> THEN [k \in 1..n |-> k - 1] ELSE [k \in 1..n |-> t[k] + Since(e)]), "index of the table"),
         Clause(o.single = PointsAt(Sight(e), All(Sight(e))), "point by number")}
View(e) ==
  LET o == e.out  d == After(Sight(e), e.ops)  all == PointsAt(d, All(d))  there == PointsAt(d, NonMissing(d)) IN
  UNION {IF e.kind = "u" /\ e.where \in {"data", "coords"} THEN Table(e) ELSE {},
         Clause(o.n = Count(d), "number of points"), Clause(o.refused = Refusals(Sight(e), e.ops), "what cannot be set"),
         Clause(o.points = all, "points"), Clause(o.placed = all, "points by place"), Clause(o.all = all, "all points"), Clause(o.there = there, "points which are not missing"),
         Clause(o.iter = (IF e.nm = 1 THEN there ELSE all), "iteration"), Clause(o.numbers = NonMissing(d) /\ o.numbered = there, "numbered points"),
         Clause(o.cols = [j \in 1..5 |-> Column(d, j)], "coordinates"), Clause(o.vals = (IF e.has = 1 THEN d.vals ELSE <<>>), "values"),
         Clause(o.outside = [n \in 1..Len(o.outside) |-> 1], "points outside")}
\* a point as it was asked for, its time given as a date or as a number
Made(a) == [c |-> [j \in 1..5 |-> IF j = 5 /\ a.date # <<>> THEN DayNo(a.date[1], a.date[2], a.date[3]) ELSE a.c[j]], v |-> a.v]
Whole(p) == \A j \in 1..5 : p.c[j] # ABSENT
Point(e) ==
  LET o == e.out  a == Made(e.a)  b == Made(e.b)  c == Made(e.c)  m == Made(e.m) @@ [given |-> e.m.given] IN
  UNION {Clause(o.a = a /\ o.b = b, "point"), Clause(o.named = Named(a), "named coordinates"), Clause(o.changed = Changed(a, m), "changed point"), Clause(o.named2 = Named(Changed(a, m)), "named coordinates of the changed"),
         Clause(o.space = SameSpace(a, b) /\ o.time = SameTime(a, b) /\ o.both = (SameSpace(a, b) /\ SameTime(a, b)), "same point"),
         IF ~(Whole(a) /\ Whole(b) /\ Whole(c)) THEN {} ELSE
         UNION {Clause(o.tsep = Sep(a, b, 5) /\ o.asep = Sep(a, b, 3), "separation"),
                Clause(o.psep * Lesser(a.c[4], b.c[4]) = 16 * Greater(a.c[4], b.c[4]), "ratio of pressures"),
                Clause(o.ctime = (Sep(a, b, 5) > Sep(a, c, 5)) /\ o.calt = (Sep(a, b, 3) > Sep(a, c, 3)) /\ o.cpres = RatioBigger(a.c[4], b.c[4], a.c[4], c.c[4]), "closer"),
                Clause(~(OnOneLine(a, b) /\ OnOneLine(a, c) /\ Angle(a, b) # Angle(a, c)) \/ o.cdist = (Angle(a, b) > Angle(a, c)), "closer on the globe"),
                Clause(Opposite(a, o.opposite) /\ o.opposite.v = a.v, "opposite point")}}
List(e) ==
  LET o == e.out  n == Len(e.ps)  V(k) == IF e.ps[k].v = <<>> THEN 0 ELSE e.ps[k].v[1]
      Col(j) == IF e.ps[1].c[j] = ABSENT THEN <<>> ELSE [k \in 1..n |-> e.ps[k].c[j]]
  IN UNION {Clause(o.n = n /\ o.numbers = [k \in 1..n |-> k - 1] /\ o.numbered = e.ps, "points of the list"), Clause(o.vals = [k \in 1..n |-> V(k)], "values of the list"),
            Clause(o.cols = [j \in 1..5 |-> Col(j)], "coordinates of the list"),
            Clause(o.shape = <<n>> /\ o.data = [k \in 1..n |-> V(k)] /\ o.found = [j \in 1..5 |-> Col(j)], "data of the list")}
Verdict(e) == CASE e.kind \in {"u", "g"} -> View(e) [] e.kind = "p" -> Point(e) [] OTHER -> List(e)
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================
