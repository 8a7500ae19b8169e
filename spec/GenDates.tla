------------------------------ MODULE GenDates ------------------------------
(* Partial dates at the ends of months, of February in every kind of year, of *)
(* days and hours, as start, end or both of a range, in all three notations.  *)
EXTENDS Dates, Json, IOUtils
VARIABLE g
Quick == IOEnv.VERIF_TIER = "quick"
Years == {1900, 1999, 2000, 2008, 2010}
Months == {<<y, m>> : y \in Years, m \in 1..12}
Days == {<<2008, 2, 29>>, <<2010, 2, 28>>, <<2010, 12, 31>>, <<2000, 1, 1>>, <<1900, 2, 28>>, <<2010, 4, 30>>}
Hours == {d \o <<h>> : d \in Days, h \in {0, 9, 23}}
Mins == {h \o <<m>> : h \in Hours, m \in {0, 7, 59}}
Secs == {m \o <<s>> : m \in Mins, s \in {0, 59}}
P == {<<y>> : y \in Years} \cup Months \cup Days \cup Hours \cup Mins \cup Secs
PS == SetToSeq(P)
Durs == << <<"P", "1", "D">>, <<"P", "T", "3", "0", "M">>, <<"P", "1", "M">>, <<"P", "1", "Y", "2", "M", "1", "0", "D", "T", "1", "H", "2", "M", "3", "S">>, <<"P", "T", "9", "0", "S">> >>
Seps3 == <<"T", ":", " ">>
Rec(k, j) == LET f == PS[k]  h == PS[1 + ((k * 7 + j) % Len(PS))]  w == 1 + (k % 2)  sep == Seps3[1 + ((k + j) % 3)] IN
  [kind |-> "date", cmd |-> IF j % 2 = 0 THEN "subset" ELSE "aggregate", dim |-> IF j \in {0, 1, 4} THEN "t" ELSE IF j \in {2, 3} THEN "time" ELSE "Time", form |-> "ok",
   s |-> IF j \in {0, 3} THEN Render(f, sep, w) ELSE Render(h, sep, w),
   e |-> IF j = 4 THEN <<>> ELSE IF j \in {0, 3} THEN Render(h, sep, w) ELSE Render(f, sep, w),
   d |-> IF j \in {1, 5} THEN Durs[1 + (k % 5)] ELSE <<>>]
Sel == SetToSeq({<<k, j>> \in (1..Len(PS)) \X (0..5) : Quick => (k + j) % 3 = 0})
Lib(k) == [kind |-> "lib", f |-> PS[k]]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [n \in 1..Len(Sel) |-> Rec(Sel[n][1], Sel[n][2])] \o [k \in 1..Len(PS) |-> Lib(k)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
