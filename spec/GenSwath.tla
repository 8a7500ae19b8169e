------------------------------ MODULE GenSwath ------------------------------
(* Every kind of file, of every small size, alone and with others, complete   *)
(* and with something missing in it.                                          *)
EXTENDS Swath, Json, IOUtils
VARIABLE g
Quick == IOEnv.VERIF_TIER = "quick"
Kinds == <<"modis", "modis1km", "caliop", "column", "cloudsat", "table">>
Sizes == IF Quick THEN {<<1, 1>>, <<2, 2>>, <<1, 3>>, <<3, 1>>, <<2, 3>>} ELSE (1..3) \X (1..3)
Gaps == <<"", "v", "lat", "lon", "t", "z", "p">>
Leads == <<<<>>, <<2>>, <<1>>, <<2, 2>>, <<1, 3>>, <<3, 1>>>>
\* a sequence with the k-th element missing
Gap(s, k) == IF s = <<>> THEN s ELSE [s EXCEPT ![1 + (k % Len(s))] = MISS]
With(gap, name, s, k) == IF gap = name THEN Gap(s, k) ELSE s
Lon(k, east) == LET x == 170 + (k * east) IN ((x + 180) % 360) - 180
File(kind, nm, w, gap, x, lead, off) ==
  LET n == nm[1]  m == nm[2]
      pos == CASE kind \in {"modis", "modis1km"} -> n * m [] OTHER -> n * w
      els == CASE kind = "modis1km" -> 25 * n * m [] kind \in {"column", "table"} -> n [] OTHER -> n * m
      lat == [k \in 1..pos |-> ((x * 13) + (k * 7)) % 80]
      lon == [k \in 1..pos |-> Lon(k + x, 9)]
      t == [k \in 1..pos |-> (x * 40) + k]
      \* the position which is looked at
      mid(k) == IF kind \in {"modis", "modis1km"} THEN k ELSE (((k % n) * w) + off - 1)
  IN [n |-> n, m |-> m, lat |-> With(gap, "lat", lat, mid(x)), lon |-> With(gap, "lon", lon, mid(x + 1)), t |-> With(gap, "t", t, mid(x)),
      v |-> [d \in 1..Prod(lead) |-> With(gap, "v", [k \in 1..els |-> (x * 1000) + (d * 300) + k], x + d)],
      z |-> CASE kind = "caliop" -> [k \in 1..m |-> 50 - (3 * k)] [] kind = "cloudsat" -> With(gap, "z", [k \in 1..els |-> 40 + k], x) [] OTHER -> <<>>,
      p |-> IF kind = "caliop" THEN With(gap, "p", [k \in 1..els |-> 900 - k], x) ELSE <<>>]
Rec(kind, a, b, gap, n) ==
  LET lead == IF kind = "modis" THEN Leads[1 + (n % 6)] ELSE <<>>
      prof == kind \in {"caliop", "column"}
      one == kind = "caliop" /\ n % 3 = 0
      w == IF prof THEN (IF one THEN 1 ELSE 3) ELSE 1
      off == IF prof /\ ~one THEN 2 ELSE 1
      files == <<File(kind, a, w, IF b = <<>> \/ n % 2 = 0 THEN gap ELSE "", 1, lead, off)>>
               \o (IF b = <<>> THEN <<>> ELSE <<File(kind, <<b[1], IF kind \in {"caliop", "cloudsat"} \/ lead # <<>> \/ kind \in {"modis", "modis1km"} THEN a[2] ELSE b[2]>>, w, gap, 2, lead, off)>>)
      \* the columns of pixels of two files are the same in number
      level == IF one THEN "1" ELSE IF n % 5 = 1 THEN "2np" ELSE "2"
  IN [kind |-> kind, lead |-> lead, w |-> w, off |-> off, pressure |-> kind = "caliop" /\ level # "2np" /\ ~(one /\ n % 4 = 1),
      files |-> files, cut |-> <<20, 60>>, level |-> level, mixed |-> kind = "caliop" /\ level # "1" /\ n % 4 = 2,
      thin |-> n % 2, look |-> n % 3, listed |-> IF kind \in {"modis1km", "column"} \/ lead # <<>> \/ (kind = "caliop" /\ level # "1" /\ n % 4 = 2) THEN <<>> ELSE <<"v">>,
      unlisted |-> <<"other">>, alone |-> gap = "" /\ kind \in {"modis", "caliop", "cloudsat"}]
\* gaps which there can be
Fits(kind, gap) == (gap = "z" => kind = "cloudsat") /\ (gap = "p" => kind = "caliop")
Combos == {c \in (1..6) \X Sizes \X ({<<>>} \cup Sizes) \X (1..7) : Fits(Kinds[c[1]], Gaps[c[4]])}
Seqd == SetToSeq(Combos)
Step == IF Quick THEN 4 ELSE 1
\* gridded summaries of days: one, two and three files, in any order
Starts == <<<<8>>, <<8, 0>>, <<0, 6>>, <<12, 0, 4>>>>
GridRec(nm, n) ==
  LET ts == Starts[1 + (n % 4)]  a == nm[1] + 1  b == nm[2] + 1 IN
  [kind |-> "grid", lead |-> <<>>, w |-> 1, off |-> 1, pressure |-> FALSE, cut |-> <<20, 60>>, level |-> "2", mixed |-> FALSE, thin |-> 0, look |-> n % 3, listed |-> <<"v">>, unlisted |-> <<"other", "XDim", "YDim">>, alone |-> FALSE,
   brand |-> <<"modis", "cloud", "aerosol">>[1 + (n % 3)],
   files |-> [k \in 1..Len(ts) |-> [n |-> a, m |-> b, lat |-> [j \in 1..a |-> 75 - (20 * j)], lon |-> [j \in 1..b |-> (10 * j) - 180], t |-> <<ts[k], ts[k] + 2 * (n % 3)>>,
                z |-> <<>>, p |-> <<>>, v |-> <<[j \in 1..(a * b) |-> IF (j + k + n) % 5 = 0 THEN MISS ELSE (100 * k) + j]>>]]]
Grids == LET ss == SetToSeq(Sizes) IN [n \in 1..(4 * Len(ss)) |-> GridRec(ss[1 + (n % Len(ss))], n)]
\* pictures and curtains whose variables may have one more dimension
Extras == <<"", "class", "aerosol_components", "band", "VNS_band", "background">>
Scenes == <<"scene", "curtain", "trail">>
SceneFile(kind, nm, gap, x, deep) ==
  LET n == nm[1]  m == nm[2]  pos == IF kind = "scene" THEN n * m ELSE n  els == IF kind = "trail" THEN n ELSE n * m
  IN [n |-> n, m |-> m, lat |-> With(gap, "lat", [k \in 1..pos |-> ((x * 13) + (k * 7)) % 80], x), lon |-> With(gap, "lon", [k \in 1..pos |-> Lon(k + x, 9)], x + 1),
      t |-> With(gap, "t", [k \in 1..n |-> (x * 40) + k], x), p |-> <<>>,
      z |-> IF kind = "scene" \/ gap = "v" THEN <<>> ELSE With(gap, "z", [k \in 1..(n * m) |-> 40 + k], x),
      v |-> [d \in 1..deep |-> With(gap, "v", [k \in 1..els |-> (x * 1000) + (d * 300) + k], x + d)]]
SceneRec(kind, extra, gap, sz, n) ==
  LET deep == IF extra = "" THEN 1 ELSE 2 + (n % 11) IN
  [kind |-> kind, lead |-> <<>>, w |-> 1, off |-> 1, pressure |-> FALSE, cut |-> <<20, 60>>, level |-> "2", mixed |-> FALSE, thin |-> n % 2, look |-> n % 3, listed |-> <<>>, unlisted |-> <<>>, alone |-> FALSE,
   extra |-> extra, pick |-> IF n % 4 = 0 \/ deep = 1 THEN 0 ELSE deep - 1,
   files |-> [x \in 1..(1 + (n % 2)) |-> SceneFile(kind, IF x = 1 THEN sz ELSE <<1 + (n % 3), sz[2]>>, gap, x, deep)]]
Suits(kind, extra, gap) == (kind = "trail" => extra \notin {"class", "aerosol_components"}) /\ gap # "p" /\ (gap = "z" => kind = "curtain")
SceneCombos == SetToSeq({c \in (1..3) \X (1..6) \X (1..7) \X Sizes : Suits(Scenes[c[1]], Extras[c[2]], Gaps[c[3]])})
SceneStep == IF Quick THEN 5 ELSE 1
Pictures == [n \in 1..(Len(SceneCombos) \div SceneStep) |-> LET c == SceneCombos[1 + (((n * SceneStep) + (n \div 3)) % Len(SceneCombos))] IN SceneRec(Scenes[c[1]], Extras[c[2]], Gaps[c[3]], c[4], n)]
Out == Grids \o Pictures \o [n \in 1..(Len(Seqd) \div Step) |-> LET c == Seqd[1 + (((n * Step) + (n \div 3)) % Len(Seqd))] IN Rec(Kinds[c[1]], c[2], c[3], Gaps[c[4]], n)]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, Out)
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
