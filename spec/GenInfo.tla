------------------------------- MODULE GenInfo ------------------------------
(* Files with every small set of variables in groups, and grids with every    *)
(* combination of coordinates.                                                *)
EXTENDS Info, Json, IOUtils
Quick == IOEnv.VERIF_TIER = "quick"
Groups == {"a", "b"}
Names == {"a", "v"}
Chains == UNION {[1..n -> Groups] : n \in 0..3}
Paths == {g \o <<n>> : g \in Chains, n \in Names}
Ordered == SetToSeq(Paths)
DimLists == <<<<>>, <<"pixel_number">>, <<"other">>, <<"pixel_number", "other">>, <<"other", "pixel_number">>, <<"pixel_number", "pixel_x">>>>
Prefix(x, y) == Len(x) < Len(y) /\ SubSeq(y, 1, Len(x)) = x
Sound(s) == \A x \in ToSet(s), y \in ToSet(s) : ~Prefix(x, y)
Distinct(s) == Cardinality(ToSet(s)) = Len(s)
NP == Len(Ordered)
\* the n-th choice of a few paths
Choice(n) == LET s == <<Ordered[1 + (n % NP)], Ordered[1 + ((n * 7 + (n \div NP)) % NP)], Ordered[1 + ((n * 11 + 3 + (n \div 17)) % NP)]>>
             IN SubSeq(s, 1, 1 + (n % 3))
Own(n, f) == LET s == Choice(n) IN [k \in 1..Len(s) |-> [path |-> s[k], dims |-> DimLists[1 + ((n \div 3 + (k * (1 + (n % 5)))) % 6)], values |-> <<(100 * f) + (10 * k), (100 * f) + (10 * k) + 1>>]]
FileOf(n, f) == Own(n, f) \o <<[path |-> <<"latitude">>, dims |-> <<"pixel_number">>, values |-> <<f, f + 1>>], [path |-> <<"longitude">>, dims |-> <<"pixel_number">>, values |-> <<f + 2, f>>]>>
Valids == <<[any |-> TRUE, names |-> <<>>], [any |-> FALSE, names |-> <<"pixel_number">>]>>
Good == SelectSeq([n \in 1..(IF Quick THEN 400 ELSE 4000) |-> n], LAMBDA n : Distinct(Choice(n)) /\ Sound(Choice(n)))
TreeCase(n) == [kind |-> "tree", valid |-> Valids[1 + (n % 2)], ext |-> IF n % 3 = 0 THEN "h5" ELSE "nc",
                files |-> IF n % 4 = 0 /\ Distinct(Choice(n + 1)) /\ Sound(Choice(n + 1)) THEN <<FileOf(n, 1), FileOf(n + 1, 2)>> ELSE <<FileOf(n, 1)>>]
\* ---- grids ----
Units == SetToSeq(TimeUnits \cup HeightUnits \cup AngleUnits) \o <<"K", "J", "kg", "none", "m s-1">>
NU == Len(Units)
Sizes == <<0, 1, 2, 3>>
\* three dimensions, of which variables have some
GridCase(n) == LET c(j) == [dim |-> <<"x", "y", "w">>[j], n |-> Sizes[1 + ((n \div (5 * j) + j) % 4)], units |-> IF n % 2 = j % 2 THEN Units[1 + ((n + (j * (n \div NU))) % NU)] ELSE "degrees"]
                   V(name, dims) == [name |-> name, dims |-> dims]
               IN [kind |-> "grid", files |-> <<[coords |-> [j \in 1..3 |-> c(j)], vars |-> <<V("v1", <<"x">>), V("v2", <<"x", "y">>), V("v3", <<"w", "y">>), V("v4", <<"y">>), V("v5", <<"w", "y", "x">>)>>]>>]
NG == IF Quick THEN 120 ELSE 1200
VARIABLE g
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [k \in 1..Len(Good) |-> TreeCase(Good[k])] \o [n \in 1..NG |-> GridCase(n)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
