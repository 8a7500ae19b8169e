------------------------------- MODULE MCArith ------------------------------
(* All programs of MaxOps operations over two datasets of N points.           *)
EXTENDS Arith
CONSTANTS N, MaxOps
VARIABLES heap, steps, last, first
vars == <<heap, steps, last, first>>
D == {<<>>, <<0, 1>>, <<2, 1>>}
U == {<<1, 0, 0, 0>>, <<1, 0, 1, 0>>}
Set(v, u) == [v |-> v, name |-> "x", units |-> u, shape |-> <<N>>, hist |-> 0, cs |-> <<[std |-> "altitude", v |-> [k \in 1..N |-> k + 1]]>>]
Init == /\ \E a, b \in [1..N -> D] : \E u \in U : heap = <<Set(a, <<1, 0, 0, 0>>), Set(b, u)>>
        /\ steps = 0 /\ last = 0 /\ first = heap
P(op, o, b, how) == [op |-> op, o |-> o, kind |-> "ds", b |-> b, how |-> how, x |-> <<2, 1>>, xs |-> <<>>, xm |-> <<>>]
All == {P(op, o, b, how) : op \in Ops \ {"log10", "log"}, o \in 1..Len(heap), b \in 1..Len(heap), how \in {"op", "ip"}}
       \cup {[P("maskv", o, 1, "") EXCEPT !.x = <<0>>] : o \in 1..Len(heap)}
Next == /\ steps < MaxOps /\ steps' = steps + 1 /\ first' = first
        /\ \E p \in All : heap' = Apply(heap, p) /\ last' = IF Len(heap') > Len(heap) THEN 0 ELSE p.o
Spec == Init /\ [][Next]_vars
\* what is missing stays missing, in everything made from it
Missing == \A o \in 1..Len(heap) : \A k \in 1..N : first[1].v[k] = MASKV /\ first[2].v[k] = MASKV => heap[o].v[k] = MASKV
SameCoords == \A o \in 1..Len(heap) : heap[o].cs = first[1].cs
Operands == [][\A o \in 1..Len(heap) : o # last' => heap'[o] = heap[o]]_vars
=============================================================================
