------------------------------ MODULE MCLookup ------------------------------
(* Coordinates join a list one after the other; a question is answered by     *)
(* striking out, for one criterion after the other in any order, whatever     *)
(* does not have it.                                                          *)
EXTENDS Lookup
CONSTANTS MaxCoords
Pool == {[std |-> s, long |-> l, var |-> v, axis |-> a, atts |-> at] :
           s \in {"", "latitude", "time"}, l \in {"", "time"}, v \in {"q"}, a \in {"X", "y"}, at \in {<<>>, <<<<"k", "1">>>>}}
Questions == {[name |-> n, std |-> s, long |-> "-", var |-> v, axis |-> a, atts |-> at, obj |-> o] :
           n \in {"-", "time", "q"}, s \in {"-", "time"}, v \in {"-", "q"}, a \in {"-", "x"}, at \in {<<>>, <<<<"k", "1">>>>}, o \in {"-", "", "latitude"}}
Criteria == {"name", "std", "axis", "atts", "obj", "var"}
VARIABLES cs, joined, k, q, left, todo
vars == <<cs, joined, k, q, left, todo>>
Init == cs \in UNION {[1..n -> Pool] : n \in 1..MaxCoords} /\ joined = <<>> /\ k = 1 /\ q \in Questions /\ left = <<>> /\ todo = Criteria
Join == /\ k <= Len(cs)
        /\ joined' = IF \E j \in 1..Len(joined) : Alike(joined[j].std, cs[k].std) THEN joined ELSE Append(joined, cs[k])
        /\ k' = k + 1 /\ left' = (IF k = Len(cs) THEN joined' ELSE <<>>) /\ UNCHANGED <<cs, q, todo>>
Has(c, w) == CASE w = "name" -> Asked(q.name, Name(c)) [] w = "std" -> Asked(q.std, c.std) [] w = "var" -> Asked(q.var, c.var)
               [] w = "axis" -> q.axis = "-" \/ UpperAxis(q.axis) = UpperAxis(c.axis)
               [] w = "atts" -> ToSet(q.atts) \subseteq ToSet(c.atts) [] OTHER -> q.obj = "-" \/ Alike(q.obj, c.std)
\* in any order, which here is one order among those with as many left
Strike == /\ k > Len(cs) /\ \E w \in todo : todo' = todo \ {w} /\ left' = SelectSeq(left, LAMBDA c : Has(c, w))
          /\ UNCHANGED <<cs, joined, k, q>>
Next == Join \/ Strike
Answered == k > Len(cs) /\ todo = {}
TypeOK == k \in 1..(Len(cs) + 1) /\ todo \subseteq Criteria
JoinedOnce == k > Len(cs) => joined = Pick(cs, Kept(cs, Len(cs)))
AnyOrder == Answered => left = Pick(joined, Found(joined, q))
\* one standard name is had by one coordinate at most, so that it can be asked for
Unique == \A a \in 1..Len(joined), b \in 1..Len(joined) : a # b => ~Alike(joined[a].std, joined[b].std)
NamedOne == k > Len(cs) => \A j \in 1..5 : LET n == StandardOf(joined)[j] IN n # 0 => joined[n].std = Standard[j]
NothingAsked == (k > Len(cs) /\ \A f \in {q.name, q.std, q.var, q.axis, q.obj} : f = "-") /\ q.atts = <<>> => Found(joined, q) = [j \in 1..Len(joined) |-> j]
Spec == Init /\ [][Next]_vars
=============================================================================
