----------------------------- MODULE MCStation ------------------------------
(* Reading rows one after the other, remembering what the head of the current *)
(* file says: the points are those of the declaration, in the same order, and *)
(* the same whichever way the heads and times tell the same thing.            *)
EXTENDS Station
CONSTANTS Big
Row(la, t, vs) == [lat |-> la, lon |-> 1500, z |-> 8, p |-> 4000, t |-> t, v |-> vs]
Head1 == [rows |-> <<>>, stamp |-> <<1999, 12, 31, 12, 0, 0>>, lat |-> 40, lon |-> -40, z |-> 12]
Head2 == [rows |-> <<>>, stamp |-> <<2004, 2, 28, 0, 0, 0>>, lat |-> -40, lon |-> 2000, z |-> 16]
Kinds == {"flight", "best", "ship", "station", "cloud", "aerosol"}
Ns == IF Big THEN {0, 24, 60, 1500} ELSE {24, 60}
RowSets(nb) == LET v == [b \in 1..nb |-> b]  w == [b \in 1..nb |-> IF b = 1 THEN MISS ELSE 7] IN
  {<<>>} \cup {<<Row(la, t, v)>> : la \in {4, MISS}, t \in {<<>>} \cup {<<n>> : n \in Ns}} \cup {<<Row(4, <<n>>, v), Row(8, <<n + 24>>, w)>> : n \in Ns}
Files(nb) == {<<[Head1 EXCEPT !.rows = r]>> : r \in RowSets(nb)} \cup {<<[Head1 EXCEPT !.rows = r], [Head2 EXCEPT !.rows = s]>> : r \in RowSets(nb), s \in RowSets(nb)}
Conf(kind, fs, bins, u, tells, pr) == [kind |-> kind, files |-> fs, bins |-> bins, pressure |-> pr, unit |-> u, q |-> 1, tells |-> tells]
BinSets == {<<>>, <<100, 120>>} \cup (IF Big THEN {<<100, MISS>>, <<MISS>>} ELSE {})
Confs == UNION {{Conf(k, fs, b, u, tl, pr) : fs \in Files(IF b = <<>> THEN 1 ELSE Len(b)), u \in (IF k \in Retrieval THEN {Day} ELSE {Day, 3600, 60}),
                 tl \in (IF k = "station" THEN {"words", "nothing"} ELSE {"number"}), pr \in (IF Big /\ k \in Aircraft THEN {"none", "PRE"} ELSE {"none"})}
                : k \in Kinds, b \in BinSets}
VARIABLES e, k, r, out, origin, place
vars == <<e, k, r, out, origin, place>>
\* what the head of a file tells
OriginOf(f) == CASE e.kind = "cloud" -> <<DayNo(2000, 1, 1), Day \div 2>> [] e.kind = "aerosol" -> <<DayNo(1970, 1, 1), 0>> [] OTHER -> Instant(f.stamp)
Step == CASE e.kind = "cloud" -> Day [] e.kind = "aerosol" -> 1 [] OTHER -> e.unit
PlaceOf(f) == IF e.kind = "station" THEN <<f.lat, f.lon, IF e.tells \in {"nothing", "unreadable"} THEN 0 ELSE f.z>> ELSE <<>>
Init == e \in Confs /\ k = 0 /\ r = 1 /\ out = <<>> /\ origin = <<>> /\ place = <<>>
F == e.files[k]
Open == /\ k < Len(e.files) /\ (IF k = 0 THEN TRUE ELSE r > Len(F.rows))
        /\ k' = k + 1 /\ r' = 1 /\ origin' = OriginOf(e.files[k + 1]) /\ place' = PlaceOf(e.files[k + 1]) /\ UNCHANGED <<e, out>>
\* seconds are added by carrying over midnight, one day at a time
RECURSIVE Carry(_)
Carry(x) == IF x[2] >= Day THEN Carry(<<x[1] + 1, x[2] - Day>>) ELSE x
Read == /\ k > 0 /\ k <= Len(e.files) /\ r <= Len(F.rows)
        /\ LET w == F.rows[r]
               la == IF place # <<>> THEN place[1] ELSE w.lat
               lo == IF place # <<>> THEN place[2] ELSE w.lon
               hi == IF place # <<>> THEN place[3] ELSE IF e.kind = "ship" THEN 0 ELSE IF e.kind \in Retrieval THEN ABSENT ELSE w.z
               pr == IF e.pressure = "none" THEN ABSENT ELSE w.p
               bs == IF e.bins = <<>> THEN <<ABSENT>> ELSE e.bins
               good == {b \in 1..Len(bs) : bs[b] # MISS}
               one(b) == [lat |-> la, lon |-> lo % TURN, z |-> hi, p |-> pr, t |-> Carry(<<origin[1], origin[2] + (w.t[1] * Step)>>), b |-> bs[b], v |-> w.v[b]]
               idx == SetToSortSeq(good, LAMBDA x, y : x < y)
           IN out' = out \o (IF la = MISS \/ w.t = <<>> THEN <<>> ELSE [j \in 1..Len(idx) |-> one(idx[j])])
        /\ r' = r + 1 /\ UNCHANGED <<e, k, origin, place>>
Next == Open \/ Read
Done == k = Len(e.files) /\ (IF k = 0 THEN TRUE ELSE r > Len(F.rows))
\* ---- invariants ----
TypeOK == k \in 0..Len(e.files)
SameRows == Done => out = Points(e)
SoFar == out = SubSeq(Points(e), 1, Len(out))
NeverMore == Len(Points(e)) <= Elements(e)
\* reading files together is reading them one by one
Apart == k = 0 => Points(e) = Cat([j \in 1..Len(e.files) |-> Points([e EXCEPT !.files = <<e.files[j]>>])])
\* hours and minutes tell the same times
Finer(x) == [x EXCEPT !.unit = IF x.unit = Day THEN 3600 ELSE 60,
                      !.files = [j \in 1..Len(x.files) |-> [x.files[j] EXCEPT !.rows = [i \in 1..Len(x.files[j].rows) |->
                         [x.files[j].rows[i] EXCEPT !.t = IF @ = <<>> THEN <<>> ELSE <<@[1] * (IF x.unit = Day THEN 24 ELSE 60)>>]]]]]
OtherUnits == (k = 0 /\ e.kind \in Aircraft /\ e.unit \in {Day, 3600}) => Points(Finer(e)) = Points(e)
\* quarters are the fourth part
Quartered(x) == [x EXCEPT !.q = 4, !.files = [j \in 1..Len(x.files) |-> [x.files[j] EXCEPT !.rows = [i \in 1..Len(x.files[j].rows) |->
                         [x.files[j].rows[i] EXCEPT !.t = IF @ = <<>> THEN <<>> ELSE <<@[1] * 4>>]]]]]
Quarters == (k = 0 /\ e.kind # "aerosol") => Points(Quartered(e)) = Points(e)
\* the places do not depend on what is read there
PlacesOnly == (k = 0 /\ e.bins = <<>>) => Len(Places(e)) = Len(Points(e))
\* ---- the calendar of maps ----
Months == k = 0 => \A y \in {1999, 2000, 2004}, m \in 1..12 :
            LET last == Stamp(<<y, m, 44, 23, 59, 59>>) IN /\ Settle(last[1], last[2] + 1) = Instant(IF m = 12 THEN <<y + 1, 1, 1, 0, 0, 0>> ELSE <<y, m + 1, 1, 0, 0, 0>>)
               /\ LET a == Instant(<<y, m, 1, 0, 0, 0>>)  mid == Middle(a, last) IN
                  (mid[1] - a[1]) * (2 * Day) + mid[2] - (2 * a[2]) = (last[1] - a[1]) * Day + (last[2] - a[2])
Spec == Init /\ [][Next]_vars
=============================================================================
