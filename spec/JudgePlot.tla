----------------------------- MODULE JudgePlot ------------------------------
(* Recorded pictures.                                                         *)
EXTENDS Plot, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Cardinality({j \in 1..Len(s) : s[j] = s[k]}) = Cardinality({j \in 1..Len(t) : t[j] = s[k]})
Each(name, want, got, Q(_, _)) ==
  IF Len(want) # Len(got) THEN {name \o ": number of layers"} ELSE UNION {Clause(Q(want[k], got[k]), name) : k \in 1..Len(want)}
Clim(e, vs, g) ==
  IF ToSet(vs) = {} THEN {} ELSE
  UNION {Clause(g.clim[1] = (IF e.vlims[1] # ABSENT THEN e.vlims[1] ELSE MinSet(ToSet(vs))), "lowest colour"),
         Clause(g.clim[2] = (IF e.vlims[2] # ABSENT THEN e.vlims[2] ELSE MaxSet(ToSet(vs))), "highest colour"),
         Clause(g.log = (e.logv = 1), "colours on a log scale")}
\* ------------------------------------------------- layers against coordinates
Lines(e, o) == Each("line", Of(e, {"line"}), o.lines, LAMBDA d, g : g = Series(e, d))
Scatters(e, o) == Each("scatter", Of(e, {"scatter"}), o.marks, LAMBDA d, g : SameBag(Present(g), Present(Series(e, d))))
DotsOf(e, o) ==
  LET s == Of(e, {"scatter2d"}) IN
  IF Len(s) # Len(o.dots) THEN {"coloured points: number of layers"}
  ELSE UNION {Clause(IF s[k].kind = "points" THEN SameBag(o.dots[k].pts, Dots(e, s[k])) ELSE ToSet(o.dots[k].pts) = Lattice(e, s[k]), "coloured points")
              \cup Clim(e, Here(s[k]), o.dots[k]) : k \in 1..Len(s)}
Meshes(e, o) ==
  LET s == Of(e, {"heatmap"}) IN
  IF Len(s) # Len(o.meshes) THEN {"heatmap: number of layers"}
  ELSE UNION {Clause(ToSet(o.meshes[k].cells) = Mesh(e, s[k]), "heatmap") \cup Clim(e, Here(s[k]), o.meshes[k]) : k \in 1..Len(s)}
Levels(e, d, g) ==
  IF e.levels # <<>> THEN Clause(g.levels = e.levels, "contour levels")
  ELSE IF e.vstep = ABSENT THEN {}
  ELSE LET a == IF e.vlims[1] # ABSENT THEN e.vlims[1] ELSE MinSet(ToSet(Here(d)))
           b == IF e.vlims[2] # ABSENT THEN e.vlims[2] ELSE MaxSet(ToSet(Here(d))) IN
       UNION {Clause(Len(g.levels) > 1 /\ g.levels[1] = a /\ \A k \in 2..Len(g.levels) : g.levels[k] - g.levels[k - 1] = e.vstep, "contour levels"),
              Clause(g.levels[Len(g.levels)] >= b, "contour levels do not reach the top")}
Contours(e, o) ==
  LET s == Of(e, {"contour", "contourf"}) IN
  IF Len(s) # Len(o.contours) THEN {"contour: number of layers"}
  ELSE UNION {UNION {Clause(ToSet(o.contours[k].pts) = Lattice(e, s[k]), "contour"),
                     Clause(o.contours[k].filled = (Kind(e, s[k]) = "contourf"), "filled contour"), Levels(e, s[k], o.contours[k])} : k \in 1..Len(s)}
Histograms(e, o) ==
  LET s == Of(e, {"histogram"})  n == e.xbins IN
  IF Len(s) # Len(o.bars) THEN {"histogram: number of layers"}
  ELSE UNION {UNION {Clause(o.bars[k].edges = BinEdges(Here(s[k]), n), "histogram edges"),
                     Clause(o.bars[k].counts = Counts(Here(s[k]), n), "histogram counts")} : k \in 1..Len(s)}
\* ------------------------------------------------- one dataset against another
PairOf(e, o) ==
  LET a == e.layers[1]  b == e.layers[2] IN
  IF Kind(e, b) = "histogram2d" THEN Clause(ToSet(o.grid2) = Counts2(a, b, e.xbins, e.ybins), "two dimensional counts")
  ELSE UNION {Clause(Len(o.marks) = 1 /\ SameBag(SelectSeq(o.marks[1], LAMBDA t : t[1] # MASKED /\ t[2] # MASKED), Both2(a, b)), "points of one against the other"),
              Clause(o.oneone, "line of equality")}
\* the diagram reaches down to a correlation (0 unless asked) and up to a ratio: what is beyond is told by its label, and may be folded onto the edge
Below(e, c) == c.sgn < 0 /\ (e.extend = 0 \/ RCmp(c.sq, Norm(e.extend * e.extend, 64)) > 0) /\ e.extend > -8
OnEdge(e, c) == c.sgn < 0 /\ e.extend < 0 /\ RCmp(c.sq, Norm(e.extend * e.extend, 64)) = 0
Above(e, r) == e.gammamax # ABSENT /\ RCmp(r, Norm(e.gammamax * e.gammamax, 64)) > 0
OnTop(e, r) == e.gammamax # ABSENT /\ RCmp(r, Norm(e.gammamax * e.gammamax, 64)) = 0
ShownCorr(e, c) == IF ~e.fold \/ ~Below(e, c) THEN c ELSE IF e.extend = 0 THEN [c EXCEPT !.sgn = 1] ELSE [sgn |-> -1, sq |-> Norm(e.extend * e.extend, 64)]
ShownRatio(e, r) == IF e.fold /\ Above(e, r) THEN Norm(e.gammamax * e.gammamax, 64) ELSE r
TaylorOf(e, o) ==
  IF Len(o.taylor) # Len(e.layers) THEN {"taylor: number of points"}
  ELSE UNION {LET w == Taylor(e, k)  g == o.taylor[k]  c == ShownCorr(e, w.corr)
                  name == IF e.layers[k].label # "" THEN e.layers[k].label ELSE Name(e.layers[k])
                  less == IF Below(e, w.corr) THEN {" $-$"} ELSE IF OnEdge(e, w.corr) \/ (w.corr.sgn = 0 /\ e.extend = 0) THEN {"", " $-$"} ELSE {""}
                  more == IF Above(e, w.ratio) THEN {" $>$"} ELSE IF OnTop(e, w.ratio) THEN {"", " $>$"} ELSE {""} IN
              UNION {Clause(g.sq = c.sq /\ g.sgn = c.sgn, "correlation"), Clause(g.ratio = ShownRatio(e, w.ratio), "ratio of deviations"),
                     Clause(\E x \in less, y \in more : g.label = name \o x \o y, "label")} : k \in 1..Len(e.layers)}
\* ------------------------------------------------- frame and words
Hidden(e) == e.how = "taylor"
Inside(e, o) == \A p \in Reach(e) : ((e.logx = 0 \/ p[1] > 0) => (\/ e.lims[1] # ABSENT \/ o.x[1] <= p[1]) /\ (\/ e.lims[2] # ABSENT \/ o.x[2] >= p[1]))
                                    /\ ((e.logy = 0 \/ p[2] > 0) => (\/ e.lims[3] # ABSENT \/ o.y[1] <= p[2]) /\ (\/ e.lims[4] # ABSENT \/ o.y[2] >= p[2]))
Ticks(step, lo, hi, t) == Len(t) > 0 /\ t[1] = lo /\ (\A k \in 2..Len(t) : t[k] - t[k - 1] = step) /\ t[Len(t)] >= hi /\ t[Len(t)] < hi + step
Lim(c, n) == OnAxis(c, n)
XC(e) == XOf(e, e.layers[1])
Given(e, o) ==
  LET x(n) == IF IsPair(e) \/ Kind(e, e.layers[1]) = "histogram" THEN n ELSE OnAxis(XOf(e, e.layers[1]), n)
      y(n) == IF IsPair(e) \/ Kind(e, e.layers[1]) = "histogram" \/ (Kind(e, e.layers[1]) \in Flat /\ e.yaxis = "") THEN n ELSE OnAxis(YOf(e, e.layers[1]), n) IN
  UNION {IF e.lims[1] # ABSENT THEN Clause(o.x[1] = x(e.lims[1]), "lower limit of x") ELSE {},
         IF e.lims[2] # ABSENT THEN Clause(IF e.xstep # ABSENT THEN o.x[2] >= x(e.lims[2]) ELSE o.x[2] = x(e.lims[2]), "upper limit of x") ELSE {},
         IF e.lims[3] # ABSENT THEN Clause(o.y[1] = y(e.lims[3]), "lower limit of y") ELSE {},
         IF e.lims[4] # ABSENT THEN Clause(IF e.ystep # ABSENT THEN o.y[2] >= y(e.lims[4]) ELSE o.y[2] = y(e.lims[4]), "upper limit of y") ELSE {},
         IF e.xstep # ABSENT THEN Clause(Ticks(e.xstep, x(e.lims[1]), x(e.lims[2]), o.xticks), "ticks of x") ELSE {},
         IF e.ystep # ABSENT THEN Clause(Ticks(e.ystep, y(e.lims[3]), y(e.lims[4]), o.yticks), "ticks of y") ELSE {}}
MapFrame(e, o) ==
  LET s == Starts(e)  l == e.lims
      in(n) == s <= n /\ n <= s + 2880
      ordered == (l[1] = ABSENT \/ in(l[1])) /\ (l[2] = ABSENT \/ in(l[2])) /\ (l[1] = ABSENT \/ l[2] = ABSENT \/ l[1] < l[2])
      rep(p) == s + ((p - s) % 2880)          \* the longitude as it is on this map; its edges are the same place
      beyond(p) == p = s \/ rep(p) = s \/ (l[1] # ABSENT /\ rep(p) < l[1]) \/ (l[2] # ABSENT /\ rep(p) > l[2])
      all == {p[2] : p \in Reach(e)}
      within(a, p) == \E k \in -2..2 : o.x[1] <= p + 2880 * k /\ p + 2880 * k <= o.x[2] IN
  \* a single limit off the map says nothing
  UNION {IF (l[1] = ABSENT) # (l[2] = ABSENT) /\ ~ordered THEN {}
         ELSE IF l[1] # ABSENT /\ l[2] # ABSENT THEN
            (IF ordered THEN Clause(\E k \in -1..1 : o.x = <<l[1] + 2880 * k, l[2] + 2880 * k>>, "longitudes shown")
             ELSE Clause(within(1, l[1]) /\ within(1, l[2]), "longitudes shown"))
         ELSE Clause(\A p \in Reach(e) : beyond(p[1]) \/ within(1, p[1]), "longitudes shown"),
         IF l[3] # ABSENT /\ l[4] = ABSENT /\ \A y \in all : y <= l[3] THEN {} ELSE IF l[4] # ABSENT /\ l[3] = ABSENT /\ \A y \in all : y >= l[4] THEN {} ELSE
         UNION {IF l[3] # ABSENT THEN Clause(o.y[1] = l[3], "latitudes shown") ELSE Clause(\A p \in Reach(e) : o.y[1] <= p[2], "latitudes shown"),
         IF l[4] # ABSENT THEN Clause(o.y[2] = l[4], "latitudes shown") ELSE Clause(\A p \in Reach(e) : o.y[2] >= p[2], "latitudes shown")}}
Frame(e, o) ==
  IF Hidden(e) THEN {}
  ELSE IF OnMap(e) THEN Clause(o.map, "a map") \cup MapFrame(e, o)
  ELSE UNION {Clause(~o.map, "not a map"), Clause(Inside(e, o), "marks outside of the frame"), Given(e, o), Clause(o.down = (Downward(e) /\ (e.lims[3] = ABSENT \/ e.lims[4] = ABSENT)), "direction of the y axis"),
              Clause(o.logx = (e.logx = 1) /\ o.logy = (e.logy = 1), "log scales")}
Words(e, o) ==
  IF Hidden(e) THEN {} ELSE
  UNION {Clause(o.xlabel = XLabel(e), "label of x"), Clause(o.ylabel = YLabel(e), "label of y"), Clause(o.title = Title(e), "title"),
         Clause(o.cbars = Bars(e), "labels of colour bars"),
         IF e.many /\ ~IsPair(e) THEN Clause(o.legend = Legend(e), "legend") ELSE {}}
Verdict(e) ==
  LET o == e.out IN
  IF Refused(e) THEN Clause(o.outcome = "error" /\ o.exc \in {"ValueError", "UserError", "CISError"}, "not refused")
  ELSE IF o.outcome # "ok" THEN {"outcome"}
  ELSE UNION {IF e.how = "taylor" THEN TaylorOf(e, o) ELSE IF IsPair(e) THEN PairOf(e, o)
              ELSE UNION {Lines(e, o), Scatters(e, o), DotsOf(e, o), Meshes(e, o), Contours(e, o), Histograms(e, o)},
              Frame(e, o), Words(e, o), Clause(o.intact, "the data was changed"),
              IF e.call \in {"plotter", "command"} THEN Clause(o.saved, "no picture was saved") \cup Clause(o.size = Size(e), "size of the picture") ELSE {}}
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================
