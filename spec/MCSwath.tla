------------------------------ MODULE MCSwath -------------------------------
(* Reading row by row, file after file: a row of the file is laid out, every  *)
(* element given its position, those without one left out. In whatever way    *)
(* files are grouped, the same points come out.                               *)
EXTENDS Swath
CONSTANTS Big
S2 == {<<1, 2>>, <<2, 1>>}
Lats == {<<0, 5, 10, -10>>, <<MISS, 5, 10, 20>>}
Lons == {<<0, 10, 0, 10>>, <<170, -170, 175, -175>>, <<-179, 178, MISS, 1>>}
Pixel == {[n |-> 2, m |-> 2, lat |-> la, lon |-> lo, t |-> <<0, 4, 8, 12>>, v |-> <<<<1, 2, 3, MISS>>>>, z |-> <<>>, p |-> <<>>] : la \in Lats, lo \in Lons}
Narrow == [n |-> 1, m |-> 3, lat |-> <<1, 2, 3>>, lon |-> <<-178, 178, 0>>, t |-> <<1, MISS, 3>>, v |-> <<<<7, 8, 9>>>>, z |-> <<>>, p |-> <<>>]
Fill(n, v) == [k \in 1..n |-> v + k]
FineOf(f) == [f EXCEPT !.v = <<Fill(25 * f.n * f.m, f.n)>>]
Prof(la, z, p, n, w) == [n |-> n, m |-> 2, lat |-> la, lon |-> Fill(n * w, 10), t |-> Fill(n * w, 20), v |-> <<Fill(n * 2, 0)>>, z |-> z, p |-> p]
Base == [kind |-> "modis", lead |-> <<>>, w |-> 1, off |-> 1, pressure |-> FALSE, cut |-> <<0, 10>>, files |-> <<Narrow>>]
Second(f) == [f EXCEPT !.v = @ \o <<Fill(f.n * f.m, 50)>>]
Scene(f) == [Second(f) EXCEPT !.t = IF f.n = 1 THEN <<3>> ELSE <<4, MISS>>]
Zs == {<<5, 9>>}
ProfFiles == {<<Prof(la, z, p, 2, 2)>> : la \in {<<1, 2, 3, 4>>, <<1, MISS, MISS, 4>>}, z \in Zs, p \in {<<100, 90, 80, 70>>, <<100, MISS, 80, 70>>}}
             \cup {<<Prof(<<1, 2>>, <<5, 9>>, <<1, 2>>, 1, 2), Prof(<<3, 4, 5, 6>>, <<6, 7>>, <<3, 4, 5, 6>>, 2, 2)>>}
CloudFiles == {<<Prof(<<1, 2>>, z, <<>>, 2, 1), Prof(<<5>>, IF z = <<>> THEN <<>> ELSE <<1, MISS>>, <<>>, 1, 1)>> : z \in {<<1, 2, 3, 4>>, <<>>}}
Confs == {[Base EXCEPT !.files = <<f>>] : f \in Pixel} \cup {[Base EXCEPT !.files = <<f, Narrow>>] : f \in Pixel} \cup {Base}
    \cup {[Base EXCEPT !.kind = "modis1km", !.files = <<FineOf(f)>>] : f \in Pixel}
    \cup (IF Big THEN {[Base EXCEPT !.kind = "modis1km", !.files = <<FineOf(Narrow), FineOf(f)>>] : f \in Pixel} ELSE {})
    \cup {[Base EXCEPT !.kind = "caliop", !.w = 2, !.off = o, !.pressure = p, !.files = f] : o \in {1, 2}, p \in BOOLEAN, f \in ProfFiles}
    \cup {[Base EXCEPT !.kind = "column", !.w = 2, !.off = o, !.files = f] : o \in {1, 2}, f \in ProfFiles}
    \cup {[Base EXCEPT !.kind = "cloudsat", !.files = f] : f \in {x \in CloudFiles : x[1].z # <<>>}}
    \cup {[Base EXCEPT !.kind = "table", !.files = f] : f \in CloudFiles}
    \cup {[Base EXCEPT !.kind = "grid", !.files = [x \in 1..Len(ts) |-> [n |-> 2, m |-> 3, lat |-> <<10, -10>>, lon |-> <<170, 180, 190>>, t |-> ts[x],
                       v |-> <<<<x, 2, MISS, 4, 5, 6 * x>>>>, z |-> <<>>, p |-> <<>>]]] : ts \in {<<<<0, 2>>>>, <<<<4, 6>>, <<0, 4>>>>, <<<<0, 4>>, <<2, 4>>, <<1, 1>>>>}}
    \cup {[Base EXCEPT !.kind = "scene", !.files = <<Scene(f)>>] @@ [extra |-> x, pick |-> IF x = "" THEN 0 ELSE 1] : f \in Pixel, x \in {"", "band"}}
    \cup {[Base EXCEPT !.kind = c, !.files = [y \in 1..Len(f) |-> Second(f[y])]] @@ [extra |-> x, pick |-> p] : c \in {"curtain", "trail"}, f \in CloudFiles, x \in {"", "class"}, p \in {0, 1}}
VARIABLES e, k, row, out
vars == <<e, k, row, out>>
Init == e \in Confs /\ k = 1 /\ row = 0 /\ out = <<>>
F == InOrder(e)[k]
NRows == IF e.kind = "modis1km" THEN 5 * F.n ELSE F.n
NCols == IF e.kind = "modis1km" THEN 5 * F.m ELSE IF Flat(e) THEN 1 ELSE F.m
\* the position of element c of the current row (both from zero)
Corner(f, s, i, j) == s[(i * f.m) + j + 1]
\* weights of the four corners; longitudes are made to lie around the first corner before
Weighted(f, s, i, j, round) ==
  LET i0 == (i - 2) \div 5  a == (i - 2) % 5  j0 == (j - 2) \div 5  b == (j - 2) % 5
      at(x, y) == Corner(f, s, i0 + x, j0 + y)
      near(x, ref) == IF round THEN ref + Short(ref, x, 360) ELSE x
      used == {<<x, y>> \in {0, 1} \X {0, 1} : (x = 1 => a > 0) /\ (y = 1 => b > 0)}
      val(x, y) == near(at(x, y), near(at(0, y), at(0, 0)))
      g(x) == IF x = 1 THEN a ELSE 5 - a
      h(y) == IF y = 1 THEN b ELSE 5 - b
      term(x, y) == IF <<x, y>> \in used THEN g(x) * h(y) * val(x, y) ELSE 0
  IN IF i < 2 \/ j < 2 \/ i > (5 * (f.n - 1)) + 2 \/ j > (5 * (f.m - 1)) + 2 THEN MISS
     ELSE IF \E u \in used : at(u[1], u[2]) = MISS THEN MISS
     ELSE term(0, 0) + term(0, 1) + term(1, 0) + term(1, 1)
Place(s, c, round) == CASE e.kind \in {"modis", "scene"} -> Scaled(s[(row * F.m) + c + 1])
                        [] e.kind = "modis1km" -> Weighted(F, s, row, c, round)
                        [] e.kind = "grid" -> Scaled(s[1 + (IF round THEN c ELSE row)])
                        [] OTHER -> Scaled(s[(row * e.w) + e.off])
Z(c) == IF ~HasZ(e) THEN ABSENT ELSE IF e.kind = "caliop" THEN Scaled(e.files[1].z[c + 1]) ELSE IF F.z = <<>> THEN c * SCALE ELSE Scaled(F.z[(row * F.m) + c + 1])
P(c) == IF ~HasP(e) THEN ABSENT ELSE Scaled(F.p[(row * F.m) + c + 1])
El(c) == [v |-> F.v[IF Picked(e) THEN 1 + e.pick ELSE 1][(row * NCols) + c + 1], lat |-> Place(F.lat, c, FALSE), lon |-> LET x == Place(F.lon, c, TRUE) IN IF x = MISS THEN MISS ELSE x % TURN,
          t |-> IF e.kind = "grid" THEN Scaled((F.t[1] + F.t[2]) \div 2) ELSE IF e.kind = "scene" THEN Scaled(F.t[row + 1]) ELSE Place(F.t, c, FALSE), z |-> Z(c), p |-> P(c)]
ReadRow == /\ k <= Len(e.files) /\ row < NRows
           /\ LET There(x) == MISS \notin {x.lat, x.lon, x.t, x.z, x.p} IN out' = out \o SelectSeq([c \in 1..NCols |-> El(c - 1)], There)
           /\ row' = row + 1 /\ UNCHANGED <<e, k>>
NextFile == k <= Len(e.files) /\ row = NRows /\ k' = k + 1 /\ row' = 0 /\ UNCHANGED <<e, out>>
Next == ReadRow \/ NextFile
Done == k > Len(e.files)
\* ---- invariants ----
TypeOK == k \in 1..(Len(e.files) + 1) /\ row >= 0
RowByRow == Done => out = Points(e, 1)
SoFar == out = SubSeq(Points(e, 1), 1, Len(out))
\* the middle of a block has the position of its pixel
Middles == (e.kind = "modis1km" /\ row = 0 /\ k = 1) =>
  \A i \in 0..(F.n - 1), j \in 0..(F.m - 1) : Between(F, F.lat, (5 * i) + 2, (5 * j) + 2, FALSE) = Scaled(Corner(F, F.lat, i, j))
\* between the middles lie the values in between
Inside == (e.kind = "modis1km" /\ row = 0 /\ k = 1) =>
  LET all == {Scaled(F.lat[x]) : x \in 1..Len(F.lat)} \ {MISS}  got == ToSet(Fine(F, F.lat, FALSE)) \ {MISS} IN
    all # {} => \A g \in got : MinSet(all) <= g /\ g <= MaxSet(all)
\* a flat element for each profile; never more than the files hold
Count == Len(Points(e, 1)) <= SumSeq([x \in 1..Len(e.files) |-> Elements(e, e.files[x])])
\* what is cut out was there, in the same order
Cut == LET w == Within(Points(e, 1), e.cut[1], e.cut[2]) IN \A x \in ToSet(w) : x \in ToSet(Points(e, 1))
Spec == Init /\ [][Next]_vars
=============================================================================
