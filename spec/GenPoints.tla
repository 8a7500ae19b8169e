------------------------------ MODULE GenPoints -----------------------------
(* Views of every small shape, with histories of what is set; pairs of points *)
(* and lists of points.                                                       *)
EXTENDS Points, Json, IOUtils
Quick == IOEnv.VERIF_TIER = "quick"
Shapes1 == <<<<1>>, <<2>>, <<3>>, <<1, 1>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 2>>, <<1, 2, 3>>, <<2, 1, 2>>, <<3, 2, 1>>, <<2, 2, 2>>>>
NameSets == <<<<1, 2, 5>>, <<0, 1, 2>>, <<5, 0, 2>>, <<2, 1, 0>>, <<4, 3, 1>>, <<0, 0, 2>>>>
Value(n, k) == IF (n * 7 + k * 3) % 5 = 0 THEN MASKED ELSE ((n + 3) * (k + 1)) % 40
Op(n, s, cnt, o) ==
  LET k == (n * 5 + o * 3) % (cnt + 1)  in == IF k = cnt THEN cnt + 1 ELSE k
      at == IF (n + o) % 3 = 0 /\ k < cnt THEN Coords(s, k) ELSE <<>>
  IN [op |-> <<"value", "point", "lon", "value">>[1 + ((n + o) % 4)], k |-> (IF (n + o) % 4 = 2 THEN <<-180, 0, 100, 540>>[1 + (n % 4)] ELSE in), at |-> IF (n + o) % 4 = 2 THEN <<>> ELSE at,
      v |-> IF (n + o) % 7 = 0 THEN MASKED ELSE 60 + o, c |-> <<-5, 20 + o, 300, 50, 7>>]
Ops(n, s) == LET cnt == Size(s) IN [o \in 1..(n % 4) |-> Op(n, s, cnt, o)]
Grid(n) == LET s == Shapes1[1 + (n % 12)]  nm == NameSets[1 + ((n \div 12) % 6)] IN
  [kind |-> "g", where |-> IF n % 5 = 0 THEN "raw" ELSE "data", shape |-> s, names |-> SubSeq(nm, 1, Len(s)), bare |-> (n \div 5) % 2,
   pts |-> [d \in 1..Len(s) |-> [m \in 1..s[d] |-> 5 * d + 10 * m]], cols |-> <<>>, has |-> 1, vals |-> [k \in 1..Size(s) |-> Value(n, k)], nm |-> (n \div 7) % 2, ops |-> Ops(n, s)]
Free(n) == LET s == Shapes1[1 + (n % 12)]  w == <<"data", "coords", "list", "raw", "data">>[1 + (n % 5)]  has == IF w \in {"data", "raw"} THEN 1 ELSE 0 IN
  [kind |-> "u", where |-> w, shape |-> s, names |-> <<>>, bare |-> 0, pts |-> <<>>,
   cols |-> [j \in 1..5 |-> IF j # 1 + (n % 5) /\ (n \div j) % 3 = 0 THEN <<>> ELSE [k \in 1..Size(s) |-> (k * (j + 2) * (n + 1)) % 90]], has |-> has, tu |-> <<"std", "1900", "object">>[1 + ((n \div 5) % 3)],
   extra |-> SelectSeq(<<[name |-> "p", v |-> [k \in 1..Size(s) |-> k]], [name |-> "q", v |-> [k \in 1..Size(s) |-> n % 50]]>>, LAMBDA x : (IF x.name = "p" THEN n \div 2 ELSE n \div 3) % 2 = 0),
   vals |-> IF has = 1 THEN [k \in 1..Size(s) |-> Value(n, k)] ELSE <<>>, nm |-> (n \div 7) % 2,
   ops |-> IF has = 1 THEN [o \in 1..(n % 4) |-> [Op(n, s, Size(s), o) EXCEPT !.at = <<>>]] ELSE <<>>]
PtC(n) == [j \in 1..5 |-> CASE j = 1 -> (IF n % 2 = 0 THEN 0 ELSE ((n * 13) % 180) - 90) [] j = 2 -> (IF n % 4 = 1 THEN 30 ELSE ((n * 47) % 540) - 180) [] j = 3 -> n % 4 [] j = 4 -> <<25, 50, 100, 400>>[1 + (n % 4)] [] OTHER -> n % 3]
Holes(c, n) == [j \in 1..5 |-> IF n % 3 = 0 /\ (n \div (3 * j)) % 2 = 0 THEN ABSENT ELSE c[j]]
Pt(n, h) == [c |-> Holes(PtC(n), h), date |-> IF h % 5 = 0 THEN <<1990 + (n % 20), 1 + (n % 12), 1 + (n % 28)>> ELSE <<>>, v |-> [k \in 1..(n % 3) |-> n + k], vk |-> <<"none", "scalar", "list">>[1 + (n % 3)]]
Mod(n) == [c |-> [j \in 1..5 |-> IF (n \div j) % 2 = 0 THEN ABSENT ELSE (n % 17) + j], date |-> IF n % 4 = 0 THEN <<2000, 2, 29>> ELSE <<>>, v |-> IF n % 3 = 2 THEN <<n>> ELSE <<>>, given |-> IF n % 3 = 0 THEN 0 ELSE 1, vk |-> "scalar"]
Pair(n) == [kind |-> "p", a |-> Pt(n, n), b |-> Pt(n + (IF n % 7 = 0 THEN 0 ELSE n % 11), IF n % 7 = 0 THEN n ELSE n \div 2), c |-> Pt((n * 3) + 1, n \div 3), m |-> Mod(n)]
Listed(n) == [kind |-> "l", ps |-> [k \in 1..(1 + (n % 4)) |-> [c |-> [j \in 1..5 |-> IF (n \div j) % 3 = 1 THEN ABSENT ELSE (k * (j + n)) % 80], v |-> IF (n + k) % 4 = 0 THEN <<>> ELSE [m \in 1..(1 + (n % 2)) |-> (n * k + m) % 50]]]]
Times == IF Quick THEN 1 ELSE 8
VARIABLE g
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [n \in 1..(240 * Times) |-> Grid(n)] \o [n \in 1..(120 * Times) |-> Free(n)] \o [n \in 1..(240 * Times) |-> Pair(n)] \o [n \in 1..(60 * Times) |-> Listed(n)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
