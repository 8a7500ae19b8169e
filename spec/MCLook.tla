------------------------------- MODULE MCLook -------------------------------
(* The options of a picture are read one by one, first those of the whole     *)
(* picture and then those of the layer, and the layer is drawn with what was  *)
(* read. What is drawn is the declared look of each layer, and the look of a  *)
(* layer does not depend on the options of the others.                        *)
EXTENDS Look
CONSTANTS Most
Blank == [color |-> "", edge |-> "", mark |-> "", line |-> "", width |-> NOTE, alpha |-> NOTE, cmap |-> "", cw |-> NOTE, orient |-> "", blabel |-> "", bar |-> "", scale |-> NOTE, lo |-> NOTE, hi |-> NOTE, nlev |-> NOTE, contlabel |-> "", label |-> ""]
Every == [cmap |-> "", orient |-> "", blabel |-> "", bar |-> "", scale |-> NOTE, lo |-> NOTE, hi |-> NOTE]
Layer(how, opts) == [how |-> how, opts |-> opts, name |-> "v", n |-> 4, map |-> TRUE, wide |-> how = "heatmap", bad |-> ""]
Choices == {Blank, [Blank EXCEPT !.color = "red", !.width = 30], [Blank EXCEPT !.alpha = 4, !.cw = 20], [Blank EXCEPT !.edge = "blue", !.mark = "s", !.label = "L"]}
           \cup {[Blank EXCEPT !.cmap = "jet", !.bar = "false"], [Blank EXCEPT !.bar = "true", !.blabel = "B", !.lo = 0], [Blank EXCEPT !.orient = "vertical", !.scale = 4, !.hi = 80]}
Alls == {Every, [Every EXCEPT !.cmap = "hot", !.bar = "false"], [Every EXCEPT !.orient = "horizontal", !.lo = 16, !.blabel = "A"]}
Layers == {Layer(h, c) : h \in Deep \cup Flat, c \in Choices}
Pictures == {[layers |-> s, all |-> a, many |-> Len(s) > 1] : a \in Alls, s \in UNION {[1..m -> IF m = 1 THEN Layers ELSE {l \in Layers : l.how \in {"line", "scatter2d", "contour"}}] : m \in 1..Most}}
VARIABLES e, k, todo, cur, drawn, bars, title
vars == <<e, k, todo, cur, drawn, bars, title>>
Init == e \in Pictures /\ k = 0 /\ todo = <<>> /\ cur = Blank /\ drawn = <<>> /\ bars = <<>> /\ title = ""
Own == <<"color", "edge", "mark", "line", "width", "alpha", "cmap", "cw", "orient", "blabel", "bar", "scale", "lo", "hi", "nlev", "contlabel", "label">>
Start == /\ todo = <<>> /\ k < Len(e.layers) /\ k' = k + 1
         /\ cur' = [f \in DOMAIN Blank |-> IF f \in Shared THEN e.all[f] ELSE Blank[f]]
         /\ todo' = Own \o <<"draw">> /\ UNCHANGED <<e, drawn, bars, title>>
Read == /\ todo # <<>> /\ Head(todo) # "draw"
        /\ LET f == Head(todo)  x == e.layers[k].opts[f] IN cur' = [cur EXCEPT ![f] = IF f \in {"width", "alpha", "cw", "scale", "lo", "hi", "nlev"} THEN (IF x # NOTE THEN x ELSE cur[f]) ELSE (IF x # "" THEN x ELSE cur[f])]
        /\ todo' = Tail(todo) /\ UNCHANGED <<e, k, drawn, bars, title>>
\* a layer on its own, with all that was read as options of its own
Alone == [layers |-> <<[e.layers[k] EXCEPT !.opts = cur]>>, all |-> Every, many |-> e.many]
Draw == /\ todo # <<>> /\ Head(todo) = "draw" /\ drawn' = Append(drawn, Look(Alone, 1)) /\ bars' = bars \o Bars(Alone)
        /\ title' = (IF Title(Alone) # "" THEN Title(Alone) ELSE title) /\ todo' = <<>> /\ UNCHANGED <<e, k, cur>>
Next == Start \/ Read \/ Draw
Spec == Init /\ [][Next]_vars
Done == k = Len(e.layers) /\ todo = <<>>
Declared == Done => drawn = Looks(e) /\ bars = Bars(e) /\ title = Title(e)
\* the options of other layers say nothing about this one
Apart == Done => \A j \in 1..Len(e.layers) : Look([e EXCEPT !.layers = [m \in 1..Len(e.layers) |-> IF m = j THEN e.layers[m] ELSE [e.layers[m] EXCEPT !.opts = Blank]]], j) = drawn[j]
\* everything asked for is seen
Asked == Done => \A j \in 1..Len(e.layers) : LET o == e.layers[j].opts IN (o.alpha # NOTE => drawn[j].alpha = o.alpha) /\ (o.color # "" /\ e.layers[j].how \in {"line", "scatter", "histogram", "contour"} => drawn[j].color = Hex(o.color))
=============================================================================
