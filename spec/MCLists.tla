------------------------------ MODULE MCLists -------------------------------
(* Sessions of operations on an empty list of grids and an empty list of      *)
(* points, with two data sets of each kind, one of another shape and one      *)
(* which is no data, to choose from.                                          *)
EXTENDS Lists
CONSTANTS Depth, Turns
G(n, d) == [kind |-> "g", name |-> n, n |-> 2, dim |-> d, ax |-> <<"y", "x">>, lat |-> [k \in 1..d[1] |-> 10 * k], lon |-> [k \in 1..d[2] |-> 100 * k], v |-> [k \in 1..(d[1] * d[2]) |-> 10 * n + k], hist |-> <<>>]
U(n, d) == [kind |-> "u", name |-> n, n |-> 2, dim |-> d, ax |-> <<>>, lat |-> [k \in 1..Prod(d) |-> 10 * k], lon |-> [k \in 1..Prod(d) |-> 100 * k], v |-> [k \in 1..Prod(d) |-> 10 * n + k], hist |-> <<>>]
Pool == <<G(1, <<2, 2>>), G(2, <<2, 2>>), [G(3, <<2, 3>>) EXCEPT !.kind = "c"], U(4, <<2>>), U(5, <<2, 2>>), [U(6, <<1>>) EXCEPT !.kind = "junk"]>>
Op(o, l, m, a, b, c) == [op |-> o, l |-> l, m |-> m, a |-> a, b |-> b, c |-> c]
Ops(s) == {o \in {Op("append", l, 0, a, 0, 0) : l \in 1..2, a \in 1..Len(Pool)}
             \cup {Op(n, l, m, 0, 0, 0) : n \in {"extend", "plus"}, l \in 1..Len(s.lists), m \in 1..Len(s.lists)}
             \cup {Op("slice", l, 0, 1, 3, 1) : l \in 1..Len(s.lists)} \cup {Op("slice", l, 0, 0, 0, -1) : l \in 1..Len(s.lists)}
             \cup {Op("copy", l, 0, 0, 0, 0) : l \in 1..Len(s.lists)} \cup {Op("note", l, 0, 7, 0, 0) : l \in 1..Len(s.lists)}
             \cup {Op("lon", l, 0, -180, 0, 0) : l \in 1..Len(s.lists)} \cup (IF Turns THEN {Op("transpose", l, 0, 0, 0, 0) : l \in 1..Len(s.lists)} ELSE {})
             \cup {Op("poke", l, 0, 1, 1, 99) : l \in 1..Len(s.lists)} \cup {Op("subset", l, 0, 15, 30, 0) : l \in 1..Len(s.lists)} : Can(s, o)}
VARIABLES s, last, before, n
vars == <<s, last, before, n>>
Start == [heap |-> Pool, lists |-> <<[kind |-> "g", at |-> <<>>], [kind |-> "u", at |-> <<>>]>>]
Init == s = Start /\ last = Op("none", 1, 0, 0, 0, 0) /\ before = Start /\ n = 0
Next == n < Depth /\ n' = n + 1 /\ \E o \in Ops(s) : last' = o /\ before' = s /\ s' = Do(s, o).s
InHeap == \A l \in ToSet(s.lists) : ToSet(l.at) \subseteq 1..Len(s.heap)
OneKind == Alike(s)
OneGround == Turns \/ SameGround(s)
\* nothing but appending and extending changes what is in a list
ListsKept == \A l \in 1..Len(before.lists) : (~(last.op \in {"append", "extend"} /\ last.l = l) => s.lists[l] = before.lists[l]) /\ IsPrefix(before.lists[l].at, s.lists[l].at)
\* what is not in the list of the operation stays as it was
Untouched == \A k \in 1..Len(before.heap) : (last.op \in {"lon", "note", "transpose", "poke"} /\ k \in ToSet(before.lists[last.l].at)) \/ (last.op = "append" /\ k = last.a /\ s.heap[k] = [before.heap[k] EXCEPT !.kind = "g"]) \/ s.heap[k] = before.heap[k]
\* a copy refers to nothing which was there before
Apart == last.op \in {"copy", "subset"} /\ Len(s.lists) > Len(before.lists) => ToSet(s.lists[Len(s.lists)].at) \cap 1..Len(before.heap) = {}
EachNoted == last.op = "note" => \A k \in ToSet(s.lists[last.l].at) : Len(s.heap[k].hist) = Len(before.heap[k].hist) + Cardinality({j \in 1..Len(s.lists[last.l].at) : s.lists[last.l].at[j] = k})
\* the same values at the same places however the longitudes are written and the axes stored
Field(o) == IF o.kind = "u" THEN {<<o.lat[k], o.lon[k] % 360, o.v[k]>> : k \in 1..Len(o.v)}
            ELSE {<<o.lat[IF o.ax[1] = "y" THEN i ELSE j], (o.lon[IF o.ax[1] = "y" THEN j ELSE i]) % 360, At2(o, i, j)>> : i \in 1..o.dim[1], j \in 1..o.dim[2]}
SameField == last.op \in {"lon", "transpose"} => \A k \in 1..Len(before.heap) : s.heap[k].kind \in {"junk"} \/ Field(s.heap[k]) = Field(before.heap[k])
SubsetField == last.op = "subset" /\ Len(s.lists) > Len(before.lists) =>
  LET new == s.lists[Len(s.lists)].at  old == before.lists[last.l].at IN Len(new) = Len(old) /\ \A k \in 1..Len(new) : Field(s.heap[new[k]]) = {p \in Field(before.heap[old[k]]) : p[1] >= last.a /\ p[1] <= last.b}
Spec == Init /\ [][Next]_vars
=============================================================================
