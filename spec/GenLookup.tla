------------------------------ MODULE GenLookup -----------------------------
(* Lists of up to three coordinates, and questions with every combination of  *)
(* criteria.                                                                  *)
EXTENDS Lookup, Json, IOUtils
Quick == IOEnv.VERIF_TIER = "quick"
Stds == <<"", "latitude", "time", "", "air_temperature", "air_pressure">>
Longs == <<"", "long one", "latitude", "q2">>
Vars == <<"q1", "q2", "q3", "">>
Axes == <<"X", "y", "Z", "t", "">>
Atts == <<<<>>, <<<<"k", "1">>>>, <<<<"k", "2">>>>, <<<<"k", "1">>, <<"m", "1">>>>>>
C(n) == [std |-> Stds[1 + (n % 6)], long |-> Longs[1 + ((n \div 2) % 4)], var |-> Vars[1 + ((n \div 3) % 4)], axis |-> Axes[1 + ((n \div 5) % 5)], atts |-> Atts[1 + ((n \div 7) % 4)]]
CSet(n) == [j \in 1..(n % 4) |-> C((n * 7) + (j * (5 + (n % 11))))]
One(want, is, n) == IF n % 3 = 0 THEN want ELSE IF n % 3 = 1 THEN is ELSE "-"
Q(n, c) == [name |-> IF n % 2 = 0 THEN "-" ELSE One("latitude", Name(c), n \div 2), std |-> IF n % 3 # 0 THEN "-" ELSE One("time", c.std, n \div 3),
            long |-> IF n % 5 # 0 THEN "-" ELSE One("long one", c.long, n \div 5), var |-> IF n % 7 # 0 THEN "-" ELSE One("q1", c.var, n \div 7),
            axis |-> IF n % 4 # 0 THEN "-" ELSE One("x", c.axis, n \div 4), atts |-> IF n % 6 # 0 THEN <<>> ELSE IF n % 12 = 0 THEN c.atts ELSE <<<<"k", "1">>>>,
            obj |-> IF n % 11 # 0 THEN "-" ELSE One("latitude", c.std, n \div 11)]
Case(n) == LET cs == CSet(n) IN [cs |-> cs, qs |-> [j \in 1..6 |-> Q((n * 13) + j, IF Len(cs) = 0 THEN C(n) ELSE cs[1 + (j % Len(cs))])], where |-> <<"list", "data", "coords", "many">>[1 + (n % 4)]]
VARIABLE g
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [n \in 1..(IF Quick THEN 600 ELSE 6000) |-> Case(n)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
