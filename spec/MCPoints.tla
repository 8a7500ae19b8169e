------------------------------ MODULE MCPoints ------------------------------
(* A walk over an array, last dimension fastest, of which any cell can be set *)
(* before it starts. Counting through the dimensions meets every cell once,   *)
(* in the order in which the array is laid out, with the coordinates of that  *)
(* cell; setting a cell is seen by that point only.                           *)
EXTENDS Points
CONSTANTS MaxDims, MaxLen, MaxSets
Names == <<<<1, 2, 5>>, <<0, 2, 1>>, <<5, 0, 3>>, <<0, 0, 0>>>>
Start(s, nm) == [kind |-> "g", shape |-> s, names |-> SubSeq(nm, 1, Len(s)), pts |-> [n \in 1..Len(s) |-> [m \in 1..s[n] |-> 10 * n + m]],
                 has |-> 1, vals |-> [k \in 1..Size(s) |-> k]]
VARIABLES d, first, idx, seen, sets
vars == <<d, first, idx, seen, sets>>
Init == /\ \E s \in UNION {[1..n -> 0..MaxLen] : n \in 1..MaxDims} : \E nm \in ToSet(Names) : d = Start(s, nm)
        /\ first = d /\ idx = [n \in 1..Len(d.shape) |-> 0] /\ seen = <<>> /\ sets = <<>>
Put == /\ seen = <<>> /\ Len(sets) < MaxSets
       /\ \E k \in 0..(Count(d) - 1), v \in {0, MASKED} : sets' = Append(sets, [op |-> "value", k |-> k, at |-> <<>>, v |-> v, c |-> <<>>]) /\ d' = Apply(d, sets'[Len(sets')])
       /\ UNCHANGED <<first, idx, seen>>
\* the odometer: the last dimension which is not at its end moves on
RECURSIVE Tick(_, _, _)
Tick(x, s, j) == IF j = 0 THEN x ELSE IF x[j] + 1 < s[j] THEN [x EXCEPT ![j] = @ + 1] ELSE Tick([x EXCEPT ![j] = 0], s, j - 1)
Step == /\ Len(seen) < Count(d) /\ seen' = Append(seen, idx) /\ idx' = Tick(idx, d.shape, Len(d.shape)) /\ UNCHANGED <<d, first, sets>>
Next == Put \/ Step
TypeOK == Len(seen) <= Count(d) /\ Len(idx) = Len(d.shape)
InOrder == \A n \in 1..Len(seen) : Place(d.shape, seen[n]) = n - 1 /\ Coords(d.shape, n - 1) = seen[n]
EachOnce == Len(seen) = Count(d) => (IsInjective(seen) /\ idx = [n \in 1..Len(d.shape) |-> 0])
Own == \A n \in 1..Len(seen) : LET p == PointAt(d, n - 1) IN
         /\ \A j \in 1..5 : (p.c[j] = ABSENT) <=> (\A x \in 1..Len(d.names) : d.names[x] # j)
         /\ \A x \in 1..Len(d.names) : d.names[x] # 0 => p.c[d.names[x]] = d.pts[x][seen[n][x] + 1]
OnlyWhatWasSet == \A k \in 0..(Count(d) - 1) : (\A n \in 1..Len(sets) : sets[n].k # k) => PointAt(d, k) = PointAt(first, k)
LastSetWins == sets # <<>> => ValAt(d, sets[Len(sets)].k) = <<sets[Len(sets)].v>>
SameAsAfter == d = After(first, sets)
Counted == Len(NonMissing(d)) = Cardinality({k \in 1..Count(d) : d.vals[k] # MASKED})
Spec == Init /\ [][Next]_vars
=============================================================================
