------------------------------ MODULE Station -------------------------------
(* What the files of stations, flights, ships and retrievals hold: rows, each *)
(* with a value (or one for each of the bins of a spectrum) at a position and *)
(* a time.                                                                    *)
(*   points     lines of text: latitude, longitude, altitude, time, value     *)
(*   flight     positions and heights of their own for every row              *)
(*   best       the same, the coordinates named in one list                   *)
(*   ship       positions for every row, always at height zero                *)
(*   station    one position and height for all rows of a file                *)
(*   cloud      retrievals without height, times as Julian dates              *)
(*   aerosol    the same, times as seconds since 1970                         *)
(*   aeronet2   lines of text, one position in the head of a file             *)
(*   aeronet3   lines of text with a position each                            *)
(*   cruise     lines of text with a position each, always at height zero     *)
(* Rows of several files follow one another, each read with what its own file *)
(* says; points without a position are left out, missing values stay.         *)
(*   l3aerosol, l3cloud   maps for a period of time given in words            *)
EXTENDS Calendar
MISS == -77777777
\* numbers are quarters
TURN == 360 * 4
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Text == {"points", "aeronet2", "aeronet3", "cruise"}
Aircraft == {"flight", "best", "ship", "station"}
Retrieval == {"cloud", "aerosol"}
Fixed == {"station", "aeronet2"}
Level0 == {"ship", "cruise"}
\* ---- a row's place ----
Lat(e, f, r) == IF e.kind \in Fixed THEN f.lat ELSE r.lat
Lon(e, f, r) == LET x == IF e.kind \in Fixed THEN f.lon ELSE r.lon IN IF x = MISS THEN MISS ELSE x % TURN
\* the height of a station may be told in words, in unreadable words, or not at all
StationHeight(e, f) == IF e.kind = "station" /\ e.tells \in {"nothing", "unreadable"} THEN 0 ELSE f.z
Height(e, f, r) == CASE e.kind \in Fixed -> StationHeight(e, f)
                     [] e.kind \in Level0 -> 0
                     [] e.kind \in Retrieval -> ABSENT
                     [] OTHER -> r.z
Pressure(e, r) == IF e.kind \in Aircraft /\ e.pressure # "none" THEN r.p ELSE ABSENT
\* ---- its time, as <<days since 1600, seconds>>; a row may lack it ----
When(e, f, r) ==
  IF r.t = <<>> THEN <<>>
  ELSE CASE e.kind \in Text -> Instant(r.t)
         [] e.kind = "cloud" -> Later(Instant(<<2000, 1, 1, 12, 0, 0>>), r.t[1], e.q, Day)      \* Julian day 2451545
         [] e.kind = "aerosol" -> Later(Instant(<<1970, 1, 1, 0, 0, 0>>), r.t[1], 1, 1)
         [] OTHER -> Later(Instant(f.stamp), r.t[1], e.q, e.unit)
\* ---- points ----
Bins(e) == IF e.bins = <<>> THEN <<ABSENT>> ELSE e.bins
RowPoints(e, f, r) ==
  LET all == [b \in 1..Len(Bins(e)) |-> [lat |-> Lat(e, f, r), lon |-> Lon(e, f, r), z |-> Height(e, f, r), p |-> Pressure(e, r),
                                         t |-> When(e, f, r), b |-> Bins(e)[b], v |-> r.v[b]]]
      There(x) == MISS \notin {x.lat, x.lon, x.z, x.p, x.b} /\ x.t # <<>>
  IN SelectSeq(all, There)
FilePoints(e, f) == Cat([k \in 1..Len(f.rows) |-> RowPoints(e, f, f.rows[k])])
Points(e) == Cat([k \in 1..Len(e.files) |-> FilePoints(e, e.files[k])])
Elements(e) == Len(Bins(e)) * SumSeq([k \in 1..Len(e.files) |-> Len(e.files[k].rows)])
\* only the places, read without a variable
Places(e) == LET x == [e EXCEPT !.bins = <<>>] IN [k \in 1..Len(Points(x)) |-> [Points(x)[k] EXCEPT !.v = 0]]
\* between limits a little above these
Within(pts, lo, hi) == LET In(x) == lo < x.lat /\ x.lat <= hi IN SelectSeq(pts, In)
\* ---- maps ----
\* a period is told by its first and last instant; a month's last day may be written as 44
Stamp(s) == IF s[3] = 44 THEN Instant([s EXCEPT ![3] = MonthLen(s[1], s[2])]) ELSE Instant(s)
\* instants in half seconds
Halves(x) == <<x[1], 2 * x[2]>>
Middle(a, b) == LET d == a[1] + b[1]  s == a[2] + b[2] + (IF d % 2 = 1 THEN Day ELSE 0) IN <<(d \div 2) + (s \div (2 * Day)), s % (2 * Day)>>
Time(e, f) == IF e.kind = "l3aerosol" THEN Middle(Stamp(f.from), Stamp(f.to)) ELSE Halves(Later(Instant(<<1970, 1, 1, 0, 0, 0>>), f.n, 4, Day))
Sheet(e, f) == [t |-> Time(e, f), lo |-> Halves(Stamp(f.from)), hi |-> Halves(Stamp(f.to)), v |-> f.v]
ByTime(a, b) == Earlier(a.t, b.t)
Sheets(e) == SortSeq([k \in 1..Len(e.files) |-> Sheet(e, e.files[k])], ByTime)
=============================================================================
