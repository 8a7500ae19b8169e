------------------------------- MODULE Lookup -------------------------------
(* Coordinates and how they are found. A coordinate is [std, long, var, axis, *)
(* atts], "" where it has none. A question is the same with "-" for what is   *)
(* not asked, a name, and obj: the standard name of a coordinate to be alike. *)
EXTENDS Common
NotAsked == "-"
Name(c) == IF c.std # "" THEN c.std ELSE IF c.long # "" THEN c.long ELSE IF c.var # "" THEN c.var ELSE "unknown"
UpperAxis(a) == CASE a = "x" -> "X" [] a = "y" -> "Y" [] a = "z" -> "Z" [] a = "t" -> "T" [] OTHER -> a
Alike(a, b) == a # "" /\ a = b
Asked(want, is) == want = NotAsked \/ want = is
FitsAll(c, q) == /\ Asked(q.name, Name(c)) /\ Asked(q.std, c.std) /\ Asked(q.long, c.long) /\ Asked(q.var, c.var)
                 /\ (q.axis = NotAsked \/ UpperAxis(q.axis) = UpperAxis(c.axis))
                 /\ \A k \in 1..Len(q.atts) : q.atts[k] \in ToSet(c.atts)
                 /\ (q.obj = NotAsked \/ Alike(q.obj, c.std))
Found(cs, q) == SelectSeq([k \in 1..Len(cs) |-> k], LAMBDA k : FitsAll(cs[k], q))
\* which of the coordinates can be put into one list, one after the other
RECURSIVE Kept(_, _)
Kept(cs, k) == IF k = 0 THEN <<>> ELSE LET before == Kept(cs, k - 1) IN
               IF \E j \in ToSet(before) : Alike(cs[j].std, cs[k].std) THEN before ELSE Append(before, k)
Standard == <<"latitude", "longitude", "altitude", "air_pressure", "time">>
\* the coordinate with each of these names, 0 where there is none
StandardOf(cs) == [j \in 1..5 |-> IF HasStd(cs, Standard[j]) THEN CHOOSE k \in 1..Len(cs) : cs[k].std = Standard[j] ELSE 0]
=============================================================================
