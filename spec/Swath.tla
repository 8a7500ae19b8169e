------------------------------- MODULE Swath --------------------------------
(* What the files of satellite swaths and profiles hold, as a sequence of     *)
(* points with a value and a position each.                                   *)
(*   modis       pixels: latitude, longitude and time for each of n x m; a    *)
(*               variable with leading dimensions is one dataset for each of  *)
(*               their indices                                                *)
(*   modis1km    a variable of (5n) x (5m): the positions given are those of  *)
(*               the middles of 5 x 5 blocks, between them they change evenly *)
(*   caliop      profiles: n rows of w positions, of which the off-th is the  *)
(*               one of the profile; m bins at the heights of the file's      *)
(*               table, and a pressure for each element where there is one    *)
(*   column      one element for each of the n profiles                       *)
(*   cloudsat    profiles: n positions, a height for each element             *)
(*   table       one element for each of the n profiles                       *)
(*   grid        rows of latitude f.lat and columns of longitude f.lon; its    *)
(*               time is the middle of the two in f.t; earlier files go first *)
(*   scene       pixels with latitude and longitude each, and a time for each *)
(*               of the n rows                                                *)
(*   curtain     profiles: n positions, with m bins at the heights given for  *)
(*               each or, where the file gives none, numbered from zero       *)
(*   trail       one element for each of the n profiles                       *)
(* the variables of the last three may have one more dimension (e.extra),     *)
(* of which one index (e.pick) is asked for.                                  *)
(* Files lie one after the other; points whose position is missing are left   *)
(* out, missing values stay.                                                  *)
EXTENDS Common
MISS == -77777777
\* units of what comes out: 1/25 of degrees, of heights' and of pressures' own units; times in 1/25 of theirs
SCALE == 25
TURN == 360 * SCALE
RECURSIVE Prod(_), Cat(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Scaled(x) == IF x = MISS THEN MISS ELSE x * SCALE
\* between two values which are a whole number of fifths apart; a step of zero needs only the first
Sum3(a, k, d) == IF k = 0 THEN a * 5 ELSE IF a = MISS \/ d = MISS THEN MISS ELSE (a * 5) + (k * d)
Diff(a, b) == IF a = MISS \/ b = MISS THEN MISS ELSE b - a
\* the shorter way round
Short(a, b, turn) == IF a = MISS \/ b = MISS THEN MISS ELSE ((b - a + (turn \div 2)) % turn) - (turn \div 2)
Mul5(a) == IF a = MISS THEN MISS ELSE a * 5
\* a pixel of the fine grid, from zero: the value between the middles of blocks, in 1/25
Between(f, s, i, j, round) ==
  IF i < 2 \/ j < 2 \/ i > (5 * (f.n - 1)) + 2 \/ j > (5 * (f.m - 1)) + 2 THEN MISS
  ELSE LET i0 == (i - 2) \div 5  a == (i - 2) % 5  j0 == (j - 2) \div 5  b == (j - 2) % 5
           at(p, r) == s[(p * f.m) + r + 1]
           way(x, y, turn) == IF round THEN Short(x, y, turn) ELSE Diff(x, y)
           down(r) == IF a = 0 THEN Mul5(at(i0, r)) ELSE Sum3(at(i0, r), a, way(at(i0, r), at(i0 + 1, r), 360))
           u == down(j0)
       IN IF b = 0 THEN Mul5(u) ELSE LET w == down(j0 + 1) IN Sum3(u, b, way(u, w, 360 * 5))
Fine(f, s, round) == [k \in 1..(25 * f.n * f.m) |-> Between(f, s, (k - 1) \div (5 * f.m), (k - 1) % (5 * f.m), round)]
\* each row's own element, for all of its m
Wide(s, m) == [k \in 1..(Len(s) * m) |-> Scaled(s[((k - 1) \div m) + 1])]
\* the off-th of every w
Column(s, w, off) == [k \in 1..(Len(s) \div w) |-> s[((k - 1) * w) + off]]
Profile(e) == e.kind \in {"caliop", "cloudsat", "curtain"}
Flat(e) == e.kind \in {"column", "table", "trail"}
Picked(e) == e.kind \in {"scene", "curtain", "trail"}
Elements(e, f) == CASE e.kind = "modis1km" -> 25 * f.n * f.m [] Flat(e) -> f.n [] OTHER -> f.n * f.m
\* a coordinate given by rows
Rows(e, f, s) == Wide(Column(s, e.w, e.off), IF Flat(e) THEN 1 ELSE f.m)
Where2(e, f, s, round) == CASE e.kind \in {"modis", "scene"} -> [k \in 1..Len(s) |-> Scaled(s[k])]
                            [] e.kind = "modis1km" -> Fine(f, s, round)
                            [] e.kind = "grid" -> [k \in 1..(f.n * f.m) |-> Scaled(s[1 + (IF round THEN (k - 1) % f.m ELSE (k - 1) \div f.m)])]
                            [] OTHER -> Rows(e, f, s)
\* heights: those of the first file's table for every row, or given one by one
HasZ(e) == Profile(e) /\ (e.kind = "caliop" \/ e.files[1].z # <<>> \/ (e.kind = "curtain" /\ e.extra = ""))
HasP(e) == e.kind = "caliop" /\ e.pressure
Height(e, f) == IF e.kind = "caliop" THEN [k \in 1..(f.n * f.m) |-> Scaled(e.files[1].z[((k - 1) % f.m) + 1])]
                ELSE IF f.z = <<>> THEN [k \in 1..(f.n * f.m) |-> Scaled((k - 1) % f.m)]
                ELSE [k \in 1..Len(f.z) |-> Scaled(f.z[k])]
\* ---- the points of a file for the d-th dataset ----
FilePoints(e, f, d) ==
  LET lat == Where2(e, f, f.lat, FALSE)  lon == Where2(e, f, f.lon, TRUE)
      t == IF e.kind = "grid" THEN [k \in 1..(f.n * f.m) |-> Scaled((f.t[1] + f.t[2]) \div 2)] ELSE IF e.kind = "scene" THEN Wide(f.t, f.m) ELSE Where2(e, f, f.t, FALSE)
      z == IF HasZ(e) THEN Height(e, f) ELSE <<>>
      p == IF HasP(e) THEN [k \in 1..Len(f.p) |-> Scaled(f.p[k])] ELSE <<>>
      all == [k \in 1..Elements(e, f) |->
               [v |-> f.v[IF Picked(e) THEN e.pick + 1 ELSE d][k], lat |-> lat[k], lon |-> IF lon[k] = MISS THEN MISS ELSE lon[k] % TURN, t |-> t[k],
                z |-> IF z = <<>> THEN ABSENT ELSE z[k], p |-> IF p = <<>> THEN ABSENT ELSE p[k]]]
      There(x) == MISS \notin {x.lat, x.lon, x.t, x.z, x.p}
  IN SelectSeq(all, There)
Datasets(e) == Prod(e.lead)
Earlier(f, h) == f.t[1] + f.t[2] < h.t[1] + h.t[2]
InOrder(e) == IF e.kind = "grid" THEN SortSeq(e.files, Earlier) ELSE e.files
Points(e, d) == Cat([k \in 1..Len(e.files) |-> FilePoints(e, InOrder(e)[k], d)])
\* the periods of the files of a grid, start and end
Spans(e) == IF e.kind # "grid" THEN <<>> ELSE Cat([k \in 1..Len(e.files) |-> <<Scaled(InOrder(e)[k].t[1]), Scaled(InOrder(e)[k].t[2])>>])
\* between limits a little above these
Within(pts, lo, hi) == LET In(x) == lo * SCALE < x.lat /\ x.lat <= hi * SCALE IN SelectSeq(pts, In)
=============================================================================
