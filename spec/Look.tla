-------------------------------- MODULE Look --------------------------------
(* How the layers of a picture look. A layer has a kind and options of its    *)
(* own; a few options can be given for the whole picture too. "" and -1 are   *)
(* options which were not given. Widths are in tenths, alpha and scales in    *)
(* eighths, and colours are as written, in any case on the command line.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NOTE == -1
Line == {"line"}
Flat == {"line", "scatter", "histogram"}
Deep == {"heatmap", "contour", "contourf", "scatter2d"}
Shared == {"cmap", "orient", "blabel", "bar", "scale", "lo", "hi"}
Given(x) == x # "" /\ x # NOTE
\* an option of a layer: its own, or else that of the whole picture
Opt(e, k, f) == LET own == e.layers[k].opts[f] IN
  CASE f \in {"width", "alpha", "cw", "nlev"} -> own
    [] f \in {"scale", "lo", "hi"} -> (IF own # NOTE THEN own ELSE e.all[f])
    [] f \in {"cmap", "orient", "blabel", "bar"} -> (IF own # "" THEN own ELSE e.all[f])
    [] OTHER -> own
Colours == <<<<"red", "#ff0000">>, <<"Red", "#ff0000">>, <<"blue", "#0000ff">>, <<"green", "#008000">>, <<"black", "#000000">>, <<"white", "#ffffff">>, <<"grey", "#808080">>, <<"gray", "#808080">>, <<"navy", "#000080">>>>
Hex(n) == IF n = "" THEN "cycle" ELSE LET k == CHOOSE j \in 1..Len(Colours) : Colours[j][1] = n IN Colours[k][2]
Or(x, d) == IF x = "" THEN d ELSE x
OrN(x, d) == IF x = NOTE THEN d ELSE x
Kind(e, k) == e.layers[k].how
\* ------------------------------------------------- what an artist looks like
None == [kind |-> "", color |-> "", edge |-> "", mark |-> "", line |-> "", width |-> NOTE, alpha |-> NOTE, cmap |-> "", lo |-> NOTE, hi |-> NOTE, labels |-> FALSE]
Lowest == 8
Highest(e, k) == 8 * e.layers[k].n
Look(e, k) ==
  LET t == Kind(e, k)  o(f) == Opt(e, k, f)
      base == [None EXCEPT !.kind = t, !.alpha = o("alpha")]
      mapped == [base EXCEPT !.cmap = Or(o("cmap"), "viridis"), !.lo = OrN(o("lo"), Lowest), !.hi = OrN(o("hi"), Highest(e, k))] IN
  CASE t = "line" -> [base EXCEPT !.color = Hex(o("color")), !.width = OrN(o("width"), 15), !.line = Or(o("line"), "solid")]
    [] t = "scatter" -> [base EXCEPT !.color = Hex(o("color")), !.edge = IF o("edge") = "" THEN Hex(o("color")) ELSE Hex(o("edge")), !.width = OrN(o("width"), 60), !.mark = Or(o("mark"), "o")]
    [] t = "histogram" -> [base EXCEPT !.color = Hex(o("color"))]
    [] t = "heatmap" -> mapped
    [] t = "scatter2d" -> [mapped EXCEPT !.edge = IF o("edge") = "" THEN "face" ELSE Hex(o("edge")), !.width = OrN(o("width"), 360), !.mark = Or(o("mark"), "o")]
    [] t = "contour" -> [(IF o("color") # "" THEN [base EXCEPT !.color = Hex(o("color"))] ELSE [mapped EXCEPT !.lo = NOTE, !.hi = NOTE])
                         EXCEPT !.width = OrN(o("cw"), 15), !.labels = (o("contlabel") = "true")]
    [] t = "contourf" -> [mapped EXCEPT !.lo = NOTE, !.hi = NOTE]
\* ------------------------------------------------- colour bars, title, legend
Seq2(n, P(_)) == SelectSeq([k \in 1..n |-> k], P)
WithBar(e, k) == Kind(e, k) \in Deep /\ Opt(e, k, "bar") # "false"
Name(e, k) == IF e.layers[k].opts.label # "" THEN e.layers[k].opts.label ELSE e.layers[k].name \o (IF e.many THEN "" ELSE " (K)")
\* a map which is wider than it is high has its colour bar below
Side(e, k) == LET d == e.layers[k] IN IF d.map /\ d.wide THEN "horizontal" ELSE "vertical"
BarOf(e, k) == [label |-> Or(Opt(e, k, "blabel"), Name(e, k)), orient |-> Or(Opt(e, k, "orient"), Side(e, k)), scale |-> OrN(Opt(e, k, "scale"), 8)]
Bars(e) == LET s == Seq2(Len(e.layers), LAMBDA k : WithBar(e, k)) IN [j \in 1..Len(s) |-> BarOf(e, s[j])]
Title(e) == LET s == Seq2(Len(e.layers), LAMBDA k : Kind(e, k) \in Deep /\ ~WithBar(e, k)) IN IF s = <<>> THEN "" ELSE Name(e, s[Len(s)])
Legend(e) == LET s == Seq2(Len(e.layers), LAMBDA k : Kind(e, k) \in Flat) IN [j \in 1..Len(s) |-> Name(e, s[j])]
Font(e) == OrN(e.font, 10)
\* ------------------------------------------------- what is refused
Styles == {"solid", "dashed", "dashdot", "dotted"}
Refused(e) == \/ \E k \in 1..Len(e.layers) : e.layers[k].bad # ""
              \/ \E k \in 1..Len(e.layers) : Kind(e, k) = "line" /\ e.layers[k].opts.line # "" /\ e.layers[k].opts.line \notin Styles
Looks(e) == [k \in 1..Len(e.layers) |-> Look(e, k)]
=============================================================================
