----------------------------- MODULE JudgeLook ------------------------------
(* Recorded pictures, artist by artist.                                       *)
EXTENDS Look, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE i
Clause(ok, name) == IF ok THEN {} ELSE {name}
Of(e, s) == Seq2(Len(e.layers), LAMBDA k : Kind(e, k) \in s)
Fields == {"color", "edge", "mark", "line", "width", "alpha", "cmap", "lo", "hi", "labels"}
\* artists of each kind are in the order of their layers
Artists(e, o, kinds) ==
  LET s == Of(e, kinds)  g == SelectSeq(o.artists, LAMBDA a : a.kind \in kinds) IN
  IF Len(s) # Len(g) THEN {"number of layers"}
  ELSE UNION {LET w == Look(e, s[j])  a == g[j] IN UNION {Clause(w[f] = a[f], "layer: " \o f) : f \in Fields} \cup Clause(w.kind = a.kind, "kind of layer") : j \in 1..Len(s)}
Levels(e, o) ==
  LET s == Of(e, {"contour", "contourf"})  g == SelectSeq(o.artists, LAMBDA a : a.kind \in {"contour", "contourf"}) IN
  IF Len(s) # Len(g) THEN {}
  ELSE UNION {LET n == Opt(e, s[j], "nlev")  m == g[j].levels IN Clause(CASE n = 2 -> m <= 4 [] n = 30 -> m >= 10 [] OTHER -> m <= 10, "number of contour levels") : j \in 1..Len(s)}
Verdict(e) ==
  LET o == e.out IN
  IF Refused(e) THEN Clause(o.outcome = "error", "not refused")
  ELSE IF o.outcome # "ok" THEN {"outcome"}
  ELSE UNION {Artists(e, o, {"line", "scatter"}), Artists(e, o, {"histogram"}), Artists(e, o, {"heatmap"}), Artists(e, o, {"scatter2d"}), Artists(e, o, {"contour", "contourf"}),
              Levels(e, o), Clause(o.bars = Bars(e), "colour bars"), Clause(o.title = (IF e.title # "" THEN e.title ELSE Title(e)), "title"),
              IF e.many THEN Clause(o.legend = Legend(e), "legend") ELSE {},
              IF e.call \in {"plotter", "command"} THEN Clause(o.grid = e.grid, "grid lines") \cup Clause(o.font = Font(e), "size of the font") ELSE {}}
JInit == i \in {s \in 1..8 : s <= Len(Trace)}
JNext == i + 8 <= Len(Trace) /\ i' = i + 8
Judged == LET v == Verdict(Trace[i]) IN v = {} \/ PrintT(<<"FAIL", Trace[i].id, v>>)
=============================================================================
