-------------------------------- MODULE Dates --------------------------------
(* Partial dates YYYY[-MM[-DD[{T|:| }hh[:mm[:ss]]]]] and durations            *)
(* P[nY][nM][nD][T[nH][nM][nS]] as sequences of characters, and the period a  *)
(* partial date names.                                                        *)
EXTENDS Calendar
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Val(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
            [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9
Chr(d) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[d + 1]
RECURSIVE Number(_, _), Dec(_)
Number(cs, a) == IF cs = <<>> THEN a ELSE Number(Tail(cs), 10 * a + Val(Head(cs)))
Dec(n) == IF n < 10 THEN <<Chr(n)>> ELSE Dec(n \div 10) \o <<Chr(n % 10)>>
\* positions of the characters which are not digits
Cuts(cs) == SelectSeq([k \in 1..Len(cs) |-> k], LAMBDA k : cs[k] \notin Digit)
\* the runs of digits between them, possibly empty
Runs(cs) == LET u == <<0>> \o Cuts(cs) \o <<Len(cs) + 1>> IN [k \in 1..(Len(u) - 1) |-> SubSeq(cs, u[k] + 1, u[k + 1] - 1)]
Seps(cs) == LET u == Cuts(cs) IN [k \in 1..Len(u) |-> cs[u[k]]]
MaxOf(f, k) == CASE k = 4 -> 23 [] OTHER -> 59
\* partial date fields, or <<>> when malformed
Fields0(cs) ==
  LET r == Runs(cs)  s == Seps(cs) IN
  IF \/ Len(r) > 6
     \/ \E k \in 1..Len(r) : Len(r[k]) = 0 \/ Len(r[k]) > (IF k = 1 THEN 4 ELSE 2)
     \/ \E k \in 1..Len(s) : s[k] \notin (CASE k <= 2 -> {"-"} [] k = 3 -> {"T", ":", " "} [] OTHER -> {":"})
  THEN <<>>
  ELSE [k \in 1..Len(r) |-> Number(r[k], 0)]
Proper(f) == /\ Len(f) >= 1 /\ f[1] >= 1
             /\ Len(f) >= 2 => f[2] \in 1..12
             /\ Len(f) >= 3 => f[3] \in 1..MonthLen(f[1], f[2])
             /\ \A k \in 4..Len(f) : f[k] \in 0..MaxOf(f, k)
DateFields(cs) == LET f == Fields0(cs) IN IF f # <<>> /\ Proper(f) THEN f ELSE <<>>
FirstOf(f) == f \o SubSeq(<<1, 1, 1, 0, 0, 0>>, Len(f) + 1, 6)
LastOf(f) == LET g == IF Len(f) = 1 THEN f \o <<12>> ELSE f
               h == IF Len(g) = 2 THEN g \o <<MonthLen(g[1], g[2])>> ELSE g IN
           h \o SubSeq(<<0, 0, 0, 23, 59, 59>>, Len(h) + 1, 6)
\* the partial dates one component longer
Finer(f) == CASE Len(f) = 1 -> [k \in 1..12 |-> f \o <<k>>]
              [] Len(f) = 2 -> [k \in 1..MonthLen(f[1], f[2]) |-> f \o <<k>>]
              [] Len(f) = 3 -> [k \in 1..24 |-> f \o <<k - 1>>]
              [] OTHER -> [k \in 1..60 |-> f \o <<k - 1>>]
Second(x) == Settle(x[1], x[2] + 1)    \* one second later
Pad(n, w) == LET d == Dec(n) IN [k \in 1..(w - Len(d)) |-> "0"] \o d
RECURSIVE Render(_, _, _)
\* sep is the separator before the hours, w the width of the components
Render(f, sep, w) == IF Len(f) = 1 THEN Pad(f[1], 4)
                     ELSE Render(SubSeq(f, 1, Len(f) - 1), sep, w) \o <<CASE Len(f) <= 3 -> "-" [] Len(f) = 4 -> sep [] OTHER -> ":">> \o Pad(f[Len(f)], w)
\* durations: <<days, seconds>>, or <<>> when malformed
Unit(c, time) == IF time THEN CASE c = "H" -> <<0, 3600>> [] c = "M" -> <<0, 60>> [] c = "S" -> <<0, 1>> [] OTHER -> <<>>
                 ELSE CASE c = "Y" -> <<365, 0>> [] c = "M" -> <<30, 0>> [] c = "D" -> <<1, 0>> [] OTHER -> <<>>
Upper(c) == CASE c = "p" -> "P" [] c = "y" -> "Y" [] c = "m" -> "M" [] c = "d" -> "D" [] c = "t" -> "T" [] c = "h" -> "H" [] c = "s" -> "S" [] OTHER -> c
Duration(raw) ==
  LET cs == [k \in 1..Len(raw) |-> Upper(raw[k])] IN
  IF Len(cs) < 2 \/ cs[1] # "P" THEN <<>>
  ELSE LET b == Tail(cs)
           t == SelectSeq([k \in 1..Len(b) |-> k], LAMBDA k : b[k] \in {"T", ":", " "})
           cut == IF t = <<>> THEN Len(b) + 1 ELSE t[1]
           d == SubSeq(b, 1, cut - 1)  h == SubSeq(b, cut + 1, Len(b))
           Tok(x, time) == LET r == Runs(x)  s == Seps(x) IN [k \in 1..Len(s) |-> <<r[k], s[k], Unit(s[k], time)>>]
           Bad(x, time) == LET r == Runs(x)  tk == Tok(x, time) IN
             \/ r[Len(r)] # <<>>
             \/ \E k \in 1..Len(tk) : tk[k][1] = <<>> \/ tk[k][3] = <<>>
             \/ \E j, k \in 1..Len(tk) : j # k /\ tk[j][2] = tk[k][2]
           all == Tok(d, FALSE) \o Tok(h, TRUE) IN
       IF Len(t) > 1 \/ Bad(d, FALSE) \/ Bad(h, TRUE) \/ (t # <<>> /\ h = <<>>) \/ all = <<>> THEN <<>>
       ELSE LET s == FoldSeq(LAMBDA x, a : <<a[1] + Number(x[1], 0) * x[3][1], a[2] + Number(x[1], 0) * x[3][2]>>, <<0, 0>>, all) IN
            Settle(s[1], s[2])
=============================================================================
