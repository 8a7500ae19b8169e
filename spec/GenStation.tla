----------------------------- MODULE GenStation -----------------------------
(* Every kind of file, of every small length, alone and with others, complete *)
(* and with something missing, in every way of saying the same.               *)
EXTENDS Station, Json, IOUtils
VARIABLE g
Quick == IOEnv.VERIF_TIER = "quick"
Kinds == <<"points", "flight", "best", "ship", "station", "cloud", "aerosol", "aeronet2", "aeronet3", "cruise">>
Lengths == IF Quick THEN {<<1>>, <<2>>, <<1, 2>>, <<3, 1>>} ELSE {<<1>>, <<2>>, <<3>>} \cup ((1..3) \X (1..3)) \cup {<<1, 2, 1>>}
Gaps == <<"", "v", "lat", "lon", "z", "p", "t", "b">>
Units == <<Day, 3600, 60, 1, Day, 3600>>
Parts == <<1, 1, 1, 1, 4, 4>>
Press == <<"none", "PRE", "PSXC", "both">>
Tells == <<"words", "number", "nothing", "unreadable">>
Name(look) == <<"AOT_500", "Water(cm)", "TripletAOT">>[1 + (look % 3)]
Unit(kind, look) == CASE kind = "points" -> "unknown" [] kind \in Text -> <<"1", "cm", "1">>[1 + (look % 3)] [] OTHER -> "K"
HasBins(kind, n) == kind \in Aircraft /\ n % 3 = 0
Moment(x, k) == <<2000 + (x % 13), 1 + (k % 12), 1 + ((x * k) % 28), (k * 7) % 24, (x * 11) % 60, (k * 13) % 60>>
\* the row which lacks something is the last but one or the only one
Row(kind, x, k, len, gap, nb, n) ==
  LET here == k = IF len = 1 THEN 1 ELSE len - 1
      G(name, v) == IF gap = name /\ here THEN MISS ELSE v
      fixed == kind \in Fixed
      tn == CASE kind = "cloud" -> 3000 + (x * 40) + k [] kind = "aerosol" -> 1000000000 + (x * 90061) + (k * 7001) [] OTHER -> (x * 1440) + (k * 577)
  IN [lat |-> IF fixed THEN 0 ELSE G("lat", ((x * 53) + (k * 31)) % 360), lon |-> IF fixed THEN 0 ELSE G("lon", (((x * 97) + (k * 211)) % 1440) - 720),
      z |-> IF kind \in {"points", "flight", "best", "aeronet3"} THEN G("z", (x * 400) + k) ELSE 0, p |-> G("p", 4000 - (x * 100) - k),
      t |-> IF gap = "t" /\ here THEN <<>> ELSE IF kind \in Text THEN Moment(x + n, k) ELSE <<tn>>,
      v |-> [b \in 1..nb |-> IF gap = "v" /\ here /\ b = 1 + (n % nb) THEN MISS ELSE (x * 300) + (k * 20) + b]]
Rec(kind, lens, gap, n) ==
  LET bins == IF HasBins(kind, n) THEN (IF gap = "b" THEN <<100, MISS, 140>> ELSE <<100, 120>>) ELSE <<>>
      nb == IF bins = <<>> THEN 1 ELSE Len(bins)
      u == 1 + (n % 6)
      look == n % 8
      File(x) == [rows |-> [k \in 1..lens[x] |-> Row(kind, x, k, lens[x], IF x = Len(lens) THEN gap ELSE "", nb, n)],
                  stamp |-> Moment(x + (3 * n), x), lat |-> (x * 40) - 100, lon |-> (x * 444) - 720, z |-> x * 321]
  IN [kind |-> kind, files |-> [x \in 1..Len(lens) |-> File(x)], bins |-> bins, pressure |-> IF kind \in Aircraft THEN Press[1 + ((n \div 2) % 4)] ELSE "none",
      unit |-> Units[u], q |-> IF kind = "cloud" THEN <<1, 2, 8>>[1 + (n % 3)] ELSE Parts[u], cut |-> <<21, 121>>,
      tells |-> IF kind = "station" THEN Tells[1 + ((n \div 3) % 4)] ELSE "number", look |-> look, alone |-> n % 2 = 0,
      units |-> Unit(kind, look), listed |-> CASE kind \in Aircraft -> <<"v">> [] kind = "points" -> <<"value">> [] kind \in Text -> <<Name(look)>> [] OTHER -> <<>>,
      unlisted |-> IF kind \in Aircraft THEN <<"other">> ELSE <<>>]
Fits(kind, gap) == CASE gap \in {"lat", "lon"} -> kind \notin Fixed
                     [] gap = "z" -> kind \in {"points", "flight", "best", "aeronet3"}
                     [] gap \in {"p", "b"} -> kind \in Aircraft
                     [] gap = "t" -> kind \notin Text
                     [] OTHER -> TRUE
Combos == {c \in (1..10) \X Lengths \X (1..8) : Fits(Kinds[c[1]], Gaps[c[3]])}
Seqd == SetToSeq(Combos)
Times == IF Quick THEN 1 ELSE 3
Rows == [n \in 1..(Len(Seqd) * Times) |-> LET c == Seqd[1 + (n % Len(Seqd))] IN Rec(Kinds[c[1]], c[2], Gaps[c[3]], n + (n \div Len(Seqd)))]
\* ---- maps of every month of years with and without a leap day ----
Map(kind, y, ms, n) ==
  [kind |-> kind, look |-> n % 8, lat |-> <<-100, 20>>, lon |-> <<-400, 0, 300>>,
   files |-> [k \in 1..Len(ms) |-> [from |-> <<y, ms[k], 1, 0, 0, n % 2>>, to |-> <<y, ms[k], IF (n + k) % 3 = 0 THEN 27 ELSE 44, 23, 59, 58 + ((n \div 2) % 2)>>, n |-> 40000 + (ms[k] * 121),
                                    v |-> [j \in 1..6 |-> IF j = 1 + (n % 9) THEN MISS ELSE (ms[k] * 10) + j]]]]
Maps == LET all == SetToSeq({"l3aerosol", "l3cloud"} \X {2008, 2009, 2012} \X ({<<m>> : m \in 1..12} \cup {<<1, 2>>, <<3, 2>>, <<12, 2, 6>>})) IN
        [n \in 1..(Len(all) \div (IF Quick THEN 2 ELSE 1)) |-> LET c == all[1 + ((n * (IF Quick THEN 2 ELSE 1)) % Len(all))] IN Map(c[1], c[2], c[3], n)]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, Rows \o Maps)
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
