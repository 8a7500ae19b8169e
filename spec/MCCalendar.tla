----------------------------- MODULE MCCalendar -----------------------------
(* Every day of the calendar in turn: day numbers count them.                 *)
EXTENDS Calendar
CONSTANTS From, Until
VARIABLES y, m, d, n
vars == <<y, m, d, n>>
Init == y = From /\ m = 1 /\ d = 1 /\ n = DayNo(From, 1, 1)
Next == /\ y < Until
        /\ n' = n + 1
        /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ m' = m /\ y' = y
           ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1
Spec == Init /\ [][Next]_vars
Counts == DayNo(y, m, d) = n /\ DateOf(n) = <<y, m, d>>
Zero == (y = 1600 /\ m = 1 /\ d = 1) <=> n = 0
Known == (<<y, m, d>> = <<2000, 1, 1>> => n = 146097) /\ (<<y, m, d>> = <<1993, 1, 1>> => n = 143541)
Steps == \A u \in {1, 60, 3600, Day} : LET x == <<n, 86399>> IN
   /\ Later(x, 0, 1, u) = x
   /\ Later(Later(x, 7, 1, u), -7, 1, u) = x
   /\ Earlier(x, Later(x, 1, 1, u))
   /\ Instant(Fields(x)) = x
   /\ Later(x, Day \div u, 1, u) = <<n + 1, 86399>>
=============================================================================
