----------------------------- MODULE MCUngridded ----------------------------
(* All programs of up to MaxOps operations over a small source with every     *)
(* pattern of missing coordinates. Each point carries an origin in its first  *)
(* coordinate, so that alignment can be stated: the value and coordinates of  *)
(* every point of every dataset belong together.                              *)
EXTENDS Ungridded
CONSTANTS N, MaxOps
VARIABLES heap, steps, last
vars == <<heap, steps, last>>
Source(m) == [shape |-> <<N>>, v |-> [p \in 1..N |-> 100 + p], name |-> "x", units |-> "1", note |-> "", att |-> "", hist |-> 0, cn |-> <<"latitude", "longitude">>,
              cs |-> <<[std |-> "latitude", v |-> [p \in 1..N |-> p]],
                       [std |-> "longitude", v |-> [p \in 1..N |-> IF m[p] = 1 THEN MASKED ELSE 10 + p]]>>]
Init == /\ \E m \in [1..N -> 0..1] : heap = <<Expose(Source(m))>>
        /\ steps = 0 /\ last = 0
Size(o) == Len(heap[o].v)
Ops(o) == {[op |-> "copy", o |-> o, a |-> <<>>, s |-> ""]}
  \cup {[op |-> "slice", o |-> o, a |-> <<x[1], x[2], 1>>, s |-> ""] : x \in {y \in (0..Size(o)) \X (0..Size(o)) : y[1] < y[2]}}
  \cup {[op |-> "slice", o |-> o, a |-> <<Size(o) - 1, -1, -1>>, s |-> ""]}
  \cup {[op |-> "setv", o |-> o, a |-> <<x, 7>>, s |-> ""] : x \in 0..(Size(o) - 1)}
  \cup {[op |-> "setc", o |-> o, a |-> <<1, x, NANV>>, s |-> ""] : x \in 0..(Size(o) - 1)}
  \cup {[op |-> "name", o |-> o, a |-> <<>>, s |-> "renamed"]}
Next == /\ steps < MaxOps /\ steps' = steps + 1
        /\ \E o \in 1..Len(heap) : \E p \in Ops(o) : heap' = Apply(heap, p) /\ last' = IF Len(heap') > Len(heap) THEN 0 ELSE o
Spec == Init /\ [][Next]_vars
Aligned == \A o \in 1..Len(heap) : LET d == heap[o] IN
  /\ Prod(d.shape) = Len(d.v)
  /\ \A k \in 1..2 : Len(d.cs[k].v) = Len(d.v)
  /\ \A p \in 1..Len(d.v) : d.cs[2].v[p] = d.cs[1].v[p] + 10 /\ d.v[p] \in {7, d.cs[1].v[p] + 100}
NoneMissing == \A o \in 1..Len(heap) : \A k \in 1..2 : \A p \in 1..Len(heap[o].v) : ~Gone(heap[o].cs[k].v[p])
\* only the dataset which is operated on changes
Independent == [][\A o \in 1..Len(heap) : o # last' => heap'[o] = heap[o]]_vars
=============================================================================
