------------------------------ MODULE GenLists ------------------------------
(* Sessions in which every operation follows every other, on lists which      *)
(* share their members.                                                       *)
EXTENDS Lists, Json, IOUtils
Quick == IOEnv.VERIF_TIER = "quick"
Lats == <<10, 20, 30, -40, 55, -5>>
G(n, d, k) == [kind |-> k, name |-> n, n |-> 2, dim |-> d, ax |-> <<"y", "x">>, lat |-> [m \in 1..d[1] |-> 10 * m], lon |-> [m \in 1..d[2] |-> (100 * m) - 170], v |-> [m \in 1..(d[1] * d[2]) |-> IF (m + n) % 5 = 0 THEN MASKED ELSE 10 * n + m], hist |-> <<>>]
U(n, d) == [kind |-> "u", name |-> n, n |-> 2, dim |-> d, ax |-> <<>>, lat |-> [k \in 1..Prod(d) |-> Lats[k]], lon |-> [k \in 1..Prod(d) |-> (60 * k) - 190], v |-> [k \in 1..Prod(d) |-> IF (k + n) % 5 = 0 THEN MASKED ELSE 10 * n + k], hist |-> <<>>]
Junk(n) == [kind |-> "junk", name |-> n, n |-> 0, dim |-> <<>>, ax |-> <<>>, lat |-> <<>>, lon |-> <<>>, v |-> <<>>, hist |-> <<>>]
Pool(x) == <<G(1, <<3, 2>>, "g"), G(2, <<3, 2>>, "g"), G(3, <<2, 3>>, "g"), U(4, <<3>>), U(5, <<3>>), IF x % 2 = 0 THEN U(6, <<3, 2>>) ELSE [U(6, <<3>>) EXCEPT !.n = 3],
             IF x % 3 = 0 THEN G(7, <<3, 2>>, "c") ELSE [G(7, <<3, 2>>, "g") EXCEPT !.n = 3], Junk(8 + (x % 5))>>
Start == <<[kind |-> "g", at |-> <<1, 2>>], [kind |-> "u", at |-> <<4, 5>>]>>
Op(o, l, m, a, b, c) == [op |-> o, l |-> l, m |-> m, a |-> a, b |-> b, c |-> c]
Each(l) == <<Op("append", l, 0, 3, 0, 0), Op("append", l, 0, 6, 0, 0), Op("append", l, 0, 7, 0, 0), Op("append", l, 0, 8, 0, 0), Op("append", l, 0, 1, 0, 0), Op("append", l, 0, 5, 0, 0),
             Op("extend", l, l, 0, 0, 0), Op("extend", l, 3 - l, 0, 0, 0), Op("iadd", l, l, 0, 0, 0), Op("iadd", l, 3 - l, 0, 0, 0), Op("plus", l, l, 0, 0, 0), Op("plus", l, 3 - l, 0, 0, 0),
             Op("slice", l, 0, 0, 1, 1), Op("slice", l, 0, -1, 9, 1), Op("slice", l, 0, 0, 0, -1), Op("slice", l, 0, 0, 9, 2), Op("copy", l, 0, 0, 0, 0), Op("copy", l, 0, 1, 0, 0),
             Op("lon", l, 0, 0, 0, 0), Op("lon", l, 0, -180, 0, 0), Op("note", l, 0, 7, 0, 0), Op("transpose", l, 0, 0, 0, 0), Op("poke", l, 0, 2, 3, 99), Op("poke", l, 0, 1, 1, MASKED),
             Op("subset", l, 0, 5, 25, 0), Op("subset", l, 0, 80, 85, 0), Op("between", l, 0, 15, 35, 0), Op("extract", l, 0, 5, 35, 0), Op("names", l, 0, 0, 0, 0), Op("frame", l, 0, 0, 0, 1), Op("frame", l, 0, 0, 0, 0)>>
N == Len(Each(1))
\* operation p on one of the two lists, then operation q on the same, on the other or on what p made, then a note and the names of all
Session(l, p, q, m) == [pool |-> Pool(p + q), lists |-> Start,
                        prog |-> <<Each(l)[p], [Each(l)[q] EXCEPT !.l = m], Op("note", m, 0, 3, 0, 0), Op("poke", l, 0, 1, 2, 55), Op("names", m, 0, 0, 0, 0), Op("lon", m, 0, 50, 0, 0), Op("plus", m, 3, 0, 0, 0), Op("frame", 2, 0, 0, 0, 1)>>]
Total == 2 * N * N * 3
VARIABLE g
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, LET step == IF Quick THEN 11 ELSE 3 IN [k \in 1..(Total \div step) |-> LET x == k * step IN Session(1 + (x % 2), 1 + ((x \div 2) % N), 1 + ((x \div (2 * N)) % N), 1 + ((x \div (2 * N * N)) % 3))])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
