------------------------------ MODULE GenPlot -------------------------------
(* Every pair of dimensions in each order, square and not, with every choice  *)
(* of named axes and every kind of plot; every kind of line over points.      *)
EXTENDS Plot, Json, IOUtils
VARIABLE g
Quick == IOEnv.VERIF_TIER = "quick"
T0 == 8 * DayNo(2003, 2, 26)
Long(std, n, up) == LET s == CASE std = "latitude" -> <<-400, -160, 80, 320>> [] std = "longitude" -> <<-80, 160, 240, 400>>
                               [] std = "time" -> <<T0, T0 + 16, T0 + 34, T0 + 60>> [] OTHER -> <<8000, 24000, 40000, 80000>>
                        t == SubSeq(s, 1, n) IN IF up THEN t ELSE [k \in 1..n |-> t[n + 1 - k]]
Coord(std, v, dim) == [std |-> std, v |-> v, edges |-> <<>>, dim |-> dim]
Layer(kind, shape, coords, n, m) == [kind |-> kind, shape |-> shape, coords |-> coords, v |-> [k \in 1..n |-> ((k * k * 7) % 61) + k], m |-> m, name |-> "v", long |-> "", units |-> "K", how |-> "", label |-> "", style |-> ""]
Blank == [call |-> "basic", how |-> "", layers |-> <<>>, xaxis |-> "", yaxis |-> "", xbins |-> 4, ybins |-> 2, lims |-> <<ABSENT, ABSENT, ABSENT, ABSENT>>, xstep |-> ABSENT, ystep |-> ABSENT,
          size |-> <<ABSENT, ABSENT>>, title |-> "", xlabel |-> "", ylabel |-> "", logx |-> 0, logy |-> 0, logv |-> 0, vlims |-> <<ABSENT, ABSENT>>, vstep |-> ABSENT, levels |-> <<>>,
          bar |-> TRUE, nopts |-> ABSENT, many |-> FALSE, tunit |-> 0]
Stds == {"latitude", "longitude", "time", "air_pressure"}
Hole(n, j) == IF j = 0 THEN <<>> ELSE [k \in 1..n |-> IF k = j THEN 1 ELSE 0]
Grid(a, b, na, nb, j) == Layer("grid", <<na, nb>>, <<Coord(a, Long(a, na, TRUE), 1), Coord(b, Long(b, nb, j # 2), 2)>>, na * nb, Hole(na * nb, j))
Sizes == IF Quick THEN {<<3, 3, 0>>, <<2, 3, 2>>} ELSE {<<3, 3, 0>>, <<3, 3, 2>>, <<2, 3, 2>>, <<4, 2, 0>>}
Hows == IF Quick THEN {"", "contour"} ELSE {"", "contour", "contourf", "scatter2d"}
Meshes == {[Blank EXCEPT !.layers = <<Grid(p[1], p[2], s[1], s[2], s[3])>>, !.how = h, !.xaxis = n[1], !.yaxis = n[2], !.call = c] :
             p \in {q \in Stds \X Stds : q[1] # q[2]}, s \in Sizes, h \in Hows, n \in {<<"", "">>, <<"A", "">>, <<"", "A">>, <<"B", "">>, <<"", "B">>, <<"A", "B">>, <<"B", "A">>}, c \in {"basic"}}
Put(e) == LET d == e.layers[1]  f(x) == CASE x = "A" -> d.coords[1].std [] x = "B" -> d.coords[2].std [] OTHER -> "" IN [e EXCEPT !.xaxis = f(e.xaxis), !.yaxis = f(e.yaxis)]
Points(stds, j) == Layer("points", <<4>>, [k \in 1..Len(stds) |-> Coord(stds[k], Pick(Long(stds[k], 4, TRUE), <<2, 1, 4, 3>>), 1)], 4, Hole(4, j))
Sets == {<<"latitude", "longitude", "time">>, <<"longitude", "latitude", "air_pressure">>, <<"time", "air_pressure">>, <<"air_pressure", "latitude">>}
Flats == {[Blank EXCEPT !.layers = <<Points(s, j)>>, !.how = h, !.xaxis = x, !.yaxis = y] : s \in Sets, j \in {0, 2}, h \in {"", "line", "scatter", "scatter2d", "histogram"},
            x \in Stds \cup {""}, y \in Stds \cup {""}}
Fit(e) == LET d == e.layers[1]  n == {d.coords[k].std : k \in 1..Len(d.coords)} IN
  /\ e.xaxis \in n \cup {""} /\ e.yaxis \in n \cup {""} /\ (e.xaxis = "" \/ e.xaxis # e.yaxis)
  /\ (e.how = "scatter2d" => (e.xaxis # "" /\ e.yaxis # "") \/ (e.xaxis = "" /\ e.yaxis = "" /\ {"longitude", "latitude"} \subseteq n))
  /\ (e.how = "histogram" => e.yaxis = "" /\ e.xaxis = "")
Flat2(e) == [e EXCEPT !.call = IF Len(e.layers[1].coords) = 2 THEN "plotter" ELSE "basic"]
All == SetToSeq({Put(e) : e \in Meshes}) \o SetToSeq({Flat2(e) : e \in {f \in Flats : Fit(f)}})
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, All)
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
