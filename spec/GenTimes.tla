------------------------------ MODULE GenTimes ------------------------------
(* Every encoding of a time with reference dates around month, leap-day and   *)
(* century ends, at midnight and within the day, with missing elements.       *)
EXTENDS Calendar, Json, IOUtils
VARIABLE g
Quick == IOEnv.VERIF_TIER = "quick"
Convs == <<"unit", "stamp", "tai", "dates", "julian", "cube", "word">>
Units == <<"days", "hours", "minutes", "seconds">>
Refs == <<<<1600, 1, 1>>, <<1899, 12, 31>>, <<1900, 2, 28>>, <<1970, 1, 1>>, <<1993, 1, 1>>, <<2000, 2, 28>>, <<2012, 2, 29>>, <<2099, 12, 31>>>>
Hours == <<<<0, 0, 0>>, <<12, 0, 0>>, <<6, 30, 15>>, <<23, 59, 59>>>>
Masks == <<<<>>, <<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<0, 1, 0, 1>>, <<1, 1, 1, 1>>>>
Q(u) == CASE u = "days" -> 8 [] u = "hours" -> 4 [] u = "minutes" -> 2 [] OTHER -> 1
Steps(u) == CASE u = "days" -> <<0, 3, 8 * 366 + 5, 8 * 59>> [] u = "hours" -> <<0, 97, 4 * 24 * 60 - 1, 4 * 24 * 365>>
              [] u = "minutes" -> <<0, 1, 2 * 1440, 2 * 525599>> [] OTHER -> <<0, 1, 86399, 86400 * 3660>>
All == {<<c, u, r, h, m, s>> \in (1..7) \X (1..4) \X (1..8) \X (1..4) \X (1..5) \X (0..1) :
          /\ Convs[c] = "tai" => u = 4
          /\ Convs[c] = "julian" => (u = 1 /\ r = 1 /\ h = 1)
          /\ Convs[c] = "cube" => m = 1
          /\ Convs[c] \in {"dates"} => u = 4
          /\ (Quick => (c + u + 2 * r + 3 * h + m + s) % 5 = 0)}
A == SetToSeq(All)
Swap(n) == <<n[4], n[2], n[3], n[1]>>
Rec(k) == LET t == A[k]  u == Units[t[2]]  n == Steps(u)
              base == [conv |-> Convs[t[1]], u |-> u, ref |-> Refs[t[3]] \o Hours[t[4]], q |-> Q(u), m |-> Masks[t[5]], shape |-> IF t[6] = 1 /\ t[1] # 6 THEN <<2, 2>> ELSE <<4>>,
                       lazy |-> (k % 3), style |-> (k % 5), look |-> (k % 2), int |-> 0, desc |-> 0, pos |-> 0, b |-> <<>>, n |-> IF k % 4 = 1 /\ t[1] # 6 THEN Swap(n) ELSE n] IN
  IF t[1] = 5 THEN [base EXCEPT !.n = <<8 * 2415021 + (k % 8), 8 * 2440588, 8 * 2451545 + 4, 8 * 2456109 + (k % 3)>>, !.q = 8]
  ELSE IF t[1] = 6 THEN LET v == IF u = "minutes" THEN <<2, 6, 2880, 2882>> ELSE <<4, 97, 512, 900>>
                            p == IF t[6] = 1 THEN [j \in 1..4 |-> v[5 - j]] ELSE v IN
       [base EXCEPT !.n = p, !.pos = k % 3, !.b = IF t[5] > 0 /\ k % 2 = 0 THEN [j \in 1..8 |-> p[(j + 1) \div 2] + (IF j % 2 = 1 THEN 0 - 2 ELSE 2)] ELSE <<>>]
  ELSE base
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [k \in 1..Len(A) |-> Rec(k)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
