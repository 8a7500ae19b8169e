------------------------------ MODULE Calendar ------------------------------
(* The Gregorian calendar, and instants counted from 1600-01-01 00:00:00 as   *)
(* <<days, seconds of the day>>.                                              *)
EXTENDS Common
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
YearDay(y) == LET a == y - 1600 IN 365 * a + (a + 3) \div 4 - (a + 99) \div 100 + (a + 399) \div 400
Before(y, m) == FoldSet(LAMBDA k, s : s + MonthLen(y, k), 0, 1..(m - 1))
DayNo(y, m, d) == YearDay(y) + Before(y, m) + d - 1
\* the date of a day number
YearOf(n) == LET e == 1600 + (n \div 366)  f == 1600 + (n \div 365) + 1 IN CHOOSE y \in (e - 1)..(f + 1) : YearDay(y) <= n /\ n < YearDay(y + 1)
DateOf(n) == LET y == YearOf(n)
                 m == CHOOSE k \in 1..12 : YearDay(y) + Before(y, k) <= n /\ n < YearDay(y) + Before(y, k) + MonthLen(y, k) IN
             <<y, m, n - YearDay(y) - Before(y, m) + 1>>
Day == 86400
\* <<y, m, d, h, mi, s>> as an instant, and back
Instant(t) == <<DayNo(t[1], t[2], t[3]), t[4] * 3600 + t[5] * 60 + t[6]>>
Fields(x) == DateOf(x[1]) \o <<x[2] \div 3600, (x[2] \div 60) % 60, x[2] % 60>>
\* carry whole days out of the seconds
Settle(d, s) == <<d + (s \div Day), s % Day>>
\* n/q steps of u seconds after x, where u is a multiple of q
Later(x, n, q, u) == LET step == u \div q IN
  IF u = Day THEN LET a == n \div q  b == n % q IN Settle(x[1] + a, x[2] + b * step)
  ELSE LET per == Day \div step IN Settle(x[1] + (n \div per), x[2] + (n % per) * step)
\* calendars of models, whose years are all the same
YearLen(cal) == CASE cal = "365_day" -> 365 [] cal = "366_day" -> 366 [] OTHER -> 360
CalMonthLen(cal, m) == IF cal = "360_day" THEN 30 ELSE IF m = 2 THEN (IF cal = "366_day" THEN 29 ELSE 28) ELSE MonthLen(2001, m)
CalBefore(cal, m) == FoldSet(LAMBDA k, s : s + CalMonthLen(cal, k), 0, 1..(m - 1))
CalInstant(cal, t) == IF cal = "" THEN Instant(t)
                      ELSE <<(t[1] - 1600) * YearLen(cal) + CalBefore(cal, t[2]) + t[3] - 1, t[4] * 3600 + t[5] * 60 + t[6]>>
\* the instant of the standard calendar with the same date
Standard(cal, x) == IF cal = "" THEN x
                    ELSE LET r == x[1] % YearLen(cal)
                             m == CHOOSE k \in 1..12 : CalBefore(cal, k) <= r /\ r < CalBefore(cal, k) + CalMonthLen(cal, k)
                         IN <<DayNo(1600 + (x[1] \div YearLen(cal)), m, r - CalBefore(cal, m) + 1), x[2]>>
ValidDate(y, m, d) == m \in 1..12 /\ d \in 1..MonthLen(y, m)
Earlier(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
=============================================================================
