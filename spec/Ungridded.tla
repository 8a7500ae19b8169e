----------------------------- MODULE Ungridded ------------------------------
(* Ungridded datasets as values: a dataset is a shape, a value for each of    *)
(* its points (MASKED where missing) and as many values of each coordinate.   *)
(* A heap is the sequence of the datasets a program has made so far; every    *)
(* operation either appends the dataset it makes or changes one dataset, and  *)
(* no other.                                                                  *)
EXTENDS Grid
Gone(x) == x = MASKED \/ x = NANV
\* the points which have a value of every coordinate, in order
Present(d) == Where(Len(d.cs[1].v), LAMBDA p : \A k \in 1..Len(d.cs) : ~Gone(d.cs[k].v[p]))
\* points idx of d, in that order, in the shape shp
Take(d, idx, shp) == [d EXCEPT !.shape = shp, !.v = IF d.v = <<>> THEN <<>> ELSE Pick(d.v, idx),
                               !.cs = [k \in 1..Len(d.cs) |-> [d.cs[k] EXCEPT !.v = Pick(d.cs[k].v, idx)]]]
\* what a dataset made from a source exposes
Expose(d) == LET idx == Present(d) IN IF Len(idx) = Len(d.cs[1].v) THEN d ELSE Take(d, idx, <<Len(idx)>>)
\* rows r (1-based, first axis) of a dataset, as flat positions
Inner(d) == Prod(Tail(d.shape))
Rows(d, rs) == FlattenSeq([k \in 1..Len(rs) |-> [j \in 1..Inner(d) |-> (rs[k] - 1) * Inner(d) + j]])
RECURSIVE Steps(_, _, _)
Steps(a, b, s) == IF (s > 0 /\ a >= b) \/ (s < 0 /\ a <= b) THEN <<>> ELSE <<a + 1>> \o Steps(a + s, b, s)
SetAt(s, p, x) == IF p > Len(s) THEN s ELSE [s EXCEPT ![p] = x]
Turns(x, s, q) == s + ((x - s) % (360 * q))
IsLon(c) == c.std = "longitude"
Apply(h, p) ==
  LET d == h[p.o] IN
  CASE p.op = "slice" -> LET rs == Steps(p.a[1], p.a[2], p.a[3]) IN Append(h, Take(d, Rows(d, rs), <<Len(rs)>> \o Tail(d.shape)))
    [] p.op = "row"   -> Append(h, Take(d, Rows(d, <<p.a[1] + 1>>), Tail(d.shape)))
    [] p.op = "bool"  -> LET idx == Where(Len(p.a), LAMBDA k : p.a[k] = 1) IN Append(h, Take(d, idx, <<Len(idx)>>))
    [] p.op = "copy"  -> Append(h, d)
    [] p.op = "with"  -> Append(h, [d EXCEPT !.v = p.a])          \* copy with new values
    [] p.op = "like"  -> Append(h, [d EXCEPT !.v = p.a, !.name = p.s, !.shape = <<Len(p.a)>>, !.note = "", !.att = "", !.hist = 0])      \* on flattened coordinates
    [] p.op = "setv"  -> [h EXCEPT ![p.o].v = SetAt(@, p.a[1] + 1, p.a[2])]
    [] p.op = "maskv" -> [h EXCEPT ![p.o].v = SetAt(@, p.a[1] + 1, MASKED)]
    [] p.op = "data"  -> [h EXCEPT ![p.o].v = p.a]
    [] p.op = "setc"  -> [h EXCEPT ![p.o] = Expose([@ EXCEPT !.cs = [@ EXCEPT ![p.a[1] + 1].v = SetAt(@, p.a[2] + 1, p.a[3])]])]
    [] p.op = "lon"   -> [h EXCEPT ![p.o].cs = [k \in 1..Len(@) |-> IF IsLon(@[k]) THEN [@[k] EXCEPT !.v = [j \in 1..Len(@) |-> Turns(@[j], p.a[1], 1)]] ELSE @[k]]]
    [] p.op = "name"  -> [h EXCEPT ![p.o].name = p.s]
    [] p.op = "units" -> [h EXCEPT ![p.o].units = p.s]
    [] p.op = "note"  -> [h EXCEPT ![p.o].note = p.s]            \* in the metadata
    [] p.op = "att"   -> [h EXCEPT ![p.o].att = p.s]             \* among the attributes of the variable
    [] p.op = "hist"  -> [h EXCEPT ![p.o].hist = @ + 1]
    [] p.op = "cname" -> [h EXCEPT ![p.o].cn[p.a[1] + 1] = p.s]
    [] OTHER          -> h                                        \* looking only
RECURSIVE Run(_, _)
Run(h, ops) == IF ops = <<>> THEN h ELSE Run(Apply(h, Head(ops)), Tail(ops))
\* as a table: missing values are NaN
Tabled(v) == [k \in 1..Len(v) |-> IF v[k] = MASKED THEN NANV ELSE v[k]]
Unmasked(v) == Where(Len(v), LAMBDA k : v[k] # MASKED)
=============================================================================
