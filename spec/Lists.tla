------------------------------- MODULE Lists --------------------------------
(* Lists of data. A list is of one kind (gridded "g" or ungridded "u") and    *)
(* refers to data sets which lie on the same points; the same data set can be *)
(* in many lists. State: [heap: sequence of data sets, lists: sequence of     *)
(* [kind, at: sequence of places in the heap]].                               *)
(*                                                                            *)
(* A data set: [kind, name, n (number of coordinates), dim (shape), ax (for   *)
(* gridded data: which of "y" and "x" each dimension is), lat, lon (of each   *)
(* point if ungridded, of each place on its axis if gridded), v (in order of  *)
(* storage), hist (what has been noted)]. Kinds other than "g" and "u" are    *)
(* not data at all; "c" is a cube of iris, which becomes gridded data.        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions, TLC
MASKED == 99999999
NANV == 66666666
ABSENT == -88888888
Clause(ok, name) == IF ok THEN {} ELSE {name}
Prod(s) == FoldLeft(LAMBDA a, x : a * x, 1, s)
\* ------------------------------------------------------------ what belongs together
Is(o, kind) == o.kind = kind \/ (kind = "g" /\ o.kind = "c")
SamePlaces(a, b) == a.n = b.n /\ a.dim = b.dim
Fits(heap, l, o) == Is(o, l.kind) /\ (l.at = <<>> \/ SamePlaces(heap[l.at[1]], o))
\* ------------------------------------------------------------ data sets
Turned(x, s) == s + ((x - s) % 360)
Order(keys) == SortSeq([k \in 1..Len(keys) |-> k], LAMBDA p, q : keys[p] < keys[q])
Pick(seq, idx) == [k \in 1..Len(idx) |-> seq[idx[k]]]
At2(o, i, j) == o.v[((i - 1) * o.dim[2]) + j]
Laid(nr, nc, F(_, _)) == [k \in 1..(nr * nc) |-> F(((k - 1) \div nc) + 1, ((k - 1) % nc) + 1)]
\* gridded data at some places of its two axes
Taken(o, rows, cols) ==
  [o EXCEPT !.dim = <<Len(rows), Len(cols)>>, !.v = Laid(Len(rows), Len(cols), LAMBDA i, j : At2(o, rows[i], cols[j])),
            !.lat = Pick(@, IF o.ax[1] = "y" THEN rows ELSE cols), !.lon = Pick(@, IF o.ax[1] = "x" THEN rows ELSE cols)]
Every(n) == [k \in 1..n |-> k]
LonRange(o, s) ==
  LET new == [k \in 1..Len(o.lon) |-> Turned(o.lon[k], s)] IN
  IF o.kind = "u" THEN [o EXCEPT !.lon = new]
  ELSE LET t == [o EXCEPT !.lon = new]  ord == Order(new) IN IF o.ax[1] = "x" THEN Taken(t, ord, Every(o.dim[2])) ELSE Taken(t, Every(o.dim[1]), ord)
Transposed(o) == [o EXCEPT !.dim = <<o.dim[2], o.dim[1]>>, !.ax = <<@[2], @[1]>>, !.v = Laid(o.dim[2], o.dim[1], LAMBDA i, j : At2(o, j, i))]
Within(seq, a, b) == SelectSeq([k \in 1..Len(seq) |-> k], LAMBDA k : seq[k] >= a /\ seq[k] <= b)
\* the part of a data set with latitudes from a to b
Part(o, a, b) ==
  LET k == Within(o.lat, a, b) IN
  IF o.kind = "u" THEN [o EXCEPT !.dim = <<Len(k)>>, !.v = Pick(@, k), !.lat = Pick(@, k), !.lon = Pick(@, k)]
  ELSE IF o.ax[1] = "y" THEN Taken(o, k, Every(o.dim[2])) ELSE Taken(o, Every(o.dim[1]), k)
\* ------------------------------------------------------------ lists
Members(s, l) == Pick(s.heap, s.lists[l].at)
Added(s, l, at) == [s EXCEPT !.lists[l].at = @ \o at]
\* one after the other as far as they fit; the rest is refused
RECURSIVE Fitting(_, _, _)
Fitting(heap, l, at) == IF at = <<>> \/ ~Fits(heap, l, heap[at[1]]) THEN <<>> ELSE <<at[1]>> \o Fitting(heap, [l EXCEPT !.at = Append(@, at[1])], Tail(at))
\* each member of a list is changed, as often as it is in the list
Changed(s, l, F(_)) == [s EXCEPT !.heap = FoldLeft(LAMBDA h, k : [h EXCEPT ![k] = F(@)], @, s.lists[l].at)]
\* a new list of new data sets, one for each member
Fresh(s, l, F(_)) ==
  LET at == s.lists[l].at  n == Len(s.heap) IN
  [heap |-> s.heap \o [k \in 1..Len(at) |-> F(s.heap[at[k]])], lists |-> Append(s.lists, [kind |-> s.lists[l].kind, at |-> [k \in 1..Len(at) |-> n + k]])]
\* the places of a slice a:b:c as Python counts them, from 1
Clip(x, n) == IF x < 0 THEN (IF x + n < 0 THEN 0 ELSE x + n) ELSE IF x > n THEN n ELSE x
RECURSIVE Steps(_, _, _)
Steps(a, b, c) == IF a >= b THEN <<>> ELSE <<a + 1>> \o Steps(a + c, b, c)
Places(n, a, b, c) == IF c > 0 THEN Steps(Clip(a, n), Clip(b, n), c) ELSE Reverse([k \in 1..n |-> k])
Answer(s, out, ans) == [s |-> s, out |-> out, ans |-> ans]
Ok(s) == Answer(s, "ok", <<>>)
\* a cube becomes gridded data as it enters a list
Entered(s, k) == IF s.heap[k].kind = "c" THEN [s EXCEPT !.heap[k].kind = "g"] ELSE s
Do(s, op) ==
  CASE op.op = "append" -> IF Fits(s.heap, s.lists[op.l], s.heap[op.a]) THEN Ok(Added(Entered(s, op.a), op.l, <<op.a>>)) ELSE Answer(s, "refused", <<>>)
    [] op.op \in {"extend", "iadd"} ->
         LET m == s.lists[op.m].at  f == Fitting(s.heap, s.lists[op.l], m) IN Answer(Added(s, op.l, f), IF f = m THEN "ok" ELSE "refused", <<>>)
    [] op.op = "plus" ->
         LET new == [kind |-> s.lists[op.l].kind, at |-> s.lists[op.l].at \o s.lists[op.m].at] IN
         IF Fitting(s.heap, [new EXCEPT !.at = <<>>], new.at) = new.at THEN Ok([s EXCEPT !.lists = Append(@, new)]) ELSE Answer(s, "refused", <<>>)
    [] op.op = "slice" -> LET at == s.lists[op.l].at IN Ok([s EXCEPT !.lists = Append(@, [kind |-> s.lists[op.l].kind, at |-> Pick(at, Places(Len(at), op.a, op.b, op.c))])])
    [] op.op = "copy" -> Ok(Fresh(s, op.l, LAMBDA o : o))
    [] op.op = "lon" -> Ok(Changed(s, op.l, LAMBDA o : LonRange(o, op.a)))
    [] op.op = "note" -> Ok(Changed(s, op.l, LAMBDA o : [o EXCEPT !.hist = Append(@, op.a)]))
    [] op.op = "transpose" -> Ok(Changed(s, op.l, Transposed))
    [] op.op = "poke" -> Ok([s EXCEPT !.heap[s.lists[op.l].at[op.a]].v[op.b] = op.c])
    [] op.op \in {"subset", "between", "extract"} ->
         IF \A k \in ToSet(s.lists[op.l].at) : Within(s.heap[k].lat, op.a, op.b) = <<>> THEN Answer(s, "none", <<>>) ELSE Ok(Fresh(s, op.l, LAMBDA o : Part(o, op.a, op.b)))
    [] op.op = "names" -> Answer(s, "ok", [k \in 1..Len(s.lists[op.l].at) |-> s.heap[s.lists[op.l].at[k]].name])
    [] OTHER -> Ok(s)
\* which operations make sense: a list with something in it, members of it, lists of grids
Can(s, op) ==
  /\ op.l \in 1..Len(s.lists)
  /\ CASE op.op = "append" -> op.a \in 1..Len(s.heap)
       [] op.op \in {"extend", "iadd", "plus"} -> op.m \in 1..Len(s.lists)
       [] op.op \in {"names", "note", "lon", "slice"} -> TRUE
       [] op.op = "copy" -> IsInjective(s.lists[op.l].at)      \* (of a data set which is there twice one or two copies could be made)
       [] op.op \in {"transpose", "between", "extract"} -> s.lists[op.l].kind = "g" /\ s.lists[op.l].at # <<>>
       [] op.op = "poke" -> op.a \in 1..Len(s.lists[op.l].at) /\ op.b <= Len(s.heap[s.lists[op.l].at[op.a]].v)
       [] op.op = "frame" -> s.lists[op.l].kind = "u" /\ s.lists[op.l].at # <<>>
       [] OTHER -> s.lists[op.l].at # <<>>
\* ------------------------------------------------------------ what must always hold
Alike(s) == \A l \in ToSet(s.lists) : \A k \in ToSet(l.at) : s.heap[k].kind = l.kind
\* (of data sets whose shape is not changed behind the list's back: transposing a list transposes those which other lists hold too)
SameGround(s) == \A l \in ToSet(s.lists) : \A j, k \in ToSet(l.at) : SamePlaces(s.heap[j], s.heap[k])
=============================================================================
