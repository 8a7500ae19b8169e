------------------------------- MODULE Shapes -------------------------------
(* Shapes of arrays whose elements are listed row by row, and what numpy calls *)
(* broadcasting: a length of one is repeated, missing first lengths are ones.  *)
EXTENDS Common
RECURSIVE Size(_), At(_, _, _)
Size(s) == IF s = <<>> THEN 1 ELSE s[1] * Size(Tail(s))
\* the place within t, from 0, of the place k of s
At(s, t, k) == IF t = <<>> THEN 0
               ELSE LET n == s[Len(s)]  m == t[Len(t)] IN
                    At(SubSeq(s, 1, Len(s) - 1), SubSeq(t, 1, Len(t) - 1), k \div n) * m + (IF m = 1 THEN 0 ELSE k % n)
LenAt(s, r, j) == LET k == j - r + Len(s) IN IF k < 1 THEN 1 ELSE s[k]
Longer(s, t) == IF Len(s) > Len(t) THEN Len(s) ELSE Len(t)
Agree(s, t) == LET r == Longer(s, t) IN \A j \in 1..r : LenAt(s, r, j) = LenAt(t, r, j) \/ LenAt(s, r, j) = 1 \/ LenAt(t, r, j) = 1
Joint(s, t) == LET r == Longer(s, t) IN [j \in 1..r |-> IF LenAt(s, r, j) = 1 THEN LenAt(t, r, j) ELSE LenAt(s, r, j)]
Fill(v, t, s) == [k \in 1..Size(s) |-> v[At(s, t, k - 1) + 1]]
Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
\* the place in an array of shape s which the place k of its transpose shows
RECURSIVE Coords(_, _), Place(_, _)
Coords(s, k) == IF s = <<>> THEN <<>> ELSE LET m == Size(Tail(s)) IN <<k \div m>> \o Coords(Tail(s), k % m)
Place(s, c) == IF s = <<>> THEN 0 ELSE c[1] * Size(Tail(s)) + Place(Tail(s), Tail(c))
Transposed(v, s) == [k \in 1..Len(v) |-> v[Place(s, Rev(Coords(Rev(s), k - 1))) + 1]]
=============================================================================
