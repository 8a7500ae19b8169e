------------------------------ MODULE GenLook -------------------------------
(* Every option of every kind of layer, alone and under an option of the      *)
(* whole picture, and next to a layer without options.                        *)
EXTENDS Look, Json, IOUtils, SequencesExt
VARIABLE g
Quick == IOEnv.VERIF_TIER = "quick"
Blank == [color |-> "", edge |-> "", mark |-> "", line |-> "", width |-> NOTE, alpha |-> NOTE, cmap |-> "", cw |-> NOTE, orient |-> "", blabel |-> "", bar |-> "", scale |-> NOTE, lo |-> NOTE, hi |-> NOTE, nlev |-> NOTE, contlabel |-> "", label |-> ""]
Every == [cmap |-> "", orient |-> "", blabel |-> "", bar |-> "", scale |-> NOTE, lo |-> NOTE, hi |-> NOTE]
Able(how) == CASE how = "line" -> {"color", "line", "width", "alpha", "label"} [] how = "scatter" -> {"color", "edge", "mark", "width", "alpha", "label"} [] how = "histogram" -> {"color", "alpha", "label"}
               [] how = "heatmap" -> {"alpha", "cmap", "orient", "blabel", "bar", "scale", "lo", "hi", "label"} [] how = "scatter2d" -> {"edge", "mark", "width", "alpha", "cmap", "orient", "blabel", "bar", "scale", "lo", "hi", "label"}
               [] how = "contour" -> {"color", "alpha", "cmap", "orient", "blabel", "bar", "scale", "cw", "nlev", "contlabel", "label"} [] OTHER -> {"alpha", "cmap", "orient", "blabel", "bar", "scale", "nlev", "label"}
Some(f) == CASE f \in {"color", "edge"} -> {"red", "grey"} [] f = "mark" -> {"s", "^"} [] f = "line" -> {"dashed", "dotted", "wavy"} [] f = "width" -> {30, 5} [] f = "alpha" -> {4, 2} [] f = "cmap" -> {"jet", "RdBu"}
             [] f = "cw" -> {10, 40} [] f = "orient" -> {"horizontal", "vertical"} [] f = "blabel" -> {"Bar"} [] f = "bar" -> {"true", "false"} [] f = "scale" -> {4} [] f = "lo" -> {0, 12} [] f = "hi" -> {36}
             [] f = "nlev" -> {2, 30} [] f = "contlabel" -> {"true", "false"} [] OTHER -> {"Words"}
Layer(how, name, grid, map, wide, opts) == [how |-> how, opts |-> opts, name |-> name, n |-> 6, grid |-> grid, map |-> map, wide |-> wide, bad |-> ""]
Hows == Flat \cup Deep
Shapes(how) == IF how \in {"line", "scatter", "histogram"} THEN {<<FALSE, FALSE, FALSE>>} ELSE IF how = "scatter2d" THEN {<<FALSE, TRUE, TRUE>>} ELSE {<<TRUE, TRUE, TRUE>>, <<TRUE, FALSE, TRUE>>, <<TRUE, TRUE, FALSE>>}
Event(call, ls, all) == [call |-> call, layers |-> ls, all |-> all, many |-> Len(ls) > 1 \/ call = "multi", grid |-> FALSE, font |-> NOTE, title |-> ""]
\* built up one field at a time so that the kinds of values are not mixed
One(c, h, s, f) == {Event(c, <<Layer(h, "v", s[1], s[2], s[3], [Blank EXCEPT ![f] = x])>>, Every) : x \in Some(f)}
Calls == IF Quick THEN {"command", "basic"} ELSE {"basic", "multi", "plotter", "command"}
List == LET add(c, h, s) == UNION {One(c, h, s, f) : f \in Able(h)} IN
        UNION {UNION {UNION {add(c, h, s) : s \in (IF Quick THEN {CHOOSE t \in Shapes(h) : t[2] = (h \notin Flat)} ELSE Shapes(h))} : h \in Hows} : c \in Calls}
\* two layers, of which the first or the second has the option
Two == UNION {UNION {UNION {{Event(c, <<Layer(h, "p", s[1], s[2], s[3], [Blank EXCEPT ![f] = x]), Layer(h, "q", s[1], s[2], s[3], Blank)>>, Every),
                             Event(c, <<Layer(h, "p", s[1], s[2], s[3], Blank), Layer(h, "q", s[1], s[2], s[3], [Blank EXCEPT ![f] = x])>>, Every)} : x \in (IF Quick THEN {CHOOSE y \in Some(f) : TRUE} ELSE Some(f))} :
                      f \in Able(h), s \in {CHOOSE t \in Shapes(h) : t[2] = (h \notin Flat)}, c \in (IF Quick THEN {"plotter"} ELSE {"multi", "plotter", "command"})} : h \in Hows}
\* options of the whole picture, and of a layer against it
Whole == UNION {UNION {{Event("plotter", <<Layer(h, "p", s[1], s[2], s[3], Blank), Layer(h, "q", s[1], s[2], s[3], [Blank EXCEPT ![f] = x])>>, [Every EXCEPT ![f] = y]) : x \in Some(f), y \in Some(f)} :
                       f \in (Shared \cap Able(h)) , s \in {CHOOSE t \in Shapes(h) : t[2]}} : h \in Deep}
\* two options of one layer
First(f) == CHOOSE x \in Some(f) : TRUE
Pairs == UNION {UNION {{Event(c, <<Layer(h, "p", s[1], s[2], s[3], [Blank EXCEPT ![q[1]] = First(q[1]), ![q[2]] = First(q[2])])>>, Every) :
                        q \in {r \in Able(h) \X Able(h) : r[1] # r[2] /\ {r[1], r[2]} # {"color", "cmap"} /\ (IF r[1] \in {"color", "mark", "cw", "lo"} THEN TRUE ELSE r[2] \notin {"color", "mark", "cw", "lo"})}} :
                       s \in {CHOOSE t \in Shapes(h) : t[2] = (h \notin Flat)}, c \in (IF Quick THEN {"basic"} ELSE {"plotter", "command"})} : h \in Hows}
All == SetToSeq(List) \o SetToSeq(Pairs) \o SetToSeq(Two) \o SetToSeq(Whole)
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, All)
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
