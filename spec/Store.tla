------------------------------- MODULE Store --------------------------------
(* Saving ungridded data to a file and reading it back.                       *)
(* A dataset to be saved is a list of variables on the same points. A         *)
(* variable has values (integers, in units of 1/q), which of them are missing *)
(* (m, empty for none), a storage type and possibly a missing value of its    *)
(* own; coordinates have a standard name and values. NANV, INFV and DEFC      *)
(* stand for not a number, infinity and the value netCDF fills elements with. *)
EXTENDS Common
INFV == 55555555
DEFC == 44444444
SIsMissing(d, k) == d.m # <<>> /\ d.m[k] = 1
SContent(d) == [k \in 1..Len(d.v) |-> IF SIsMissing(d, k) THEN MASKED ELSE d.v[k]]
\* points with a coordinate missing are not part of a dataset
Whole(cs, n) == [k \in 1..n |-> \A c \in 1..Len(cs) : ~SIsMissing(cs[c], k)]
RECURSIVE PickFrom(_, _, _)
PickFrom(s, keep, k) == IF k > Len(s) THEN <<>> ELSE (IF keep[k] THEN <<s[k]>> ELSE <<>>) \o PickFrom(s, keep, k + 1)
Picked(s, keep) == PickFrom(s, keep, 1)
\* ---- representation of missing values ----
\* the stored elements when missing ones are written as f, and what is read where f means missing
Stored(s, f) == [k \in 1..Len(s) |-> IF s[k] = MASKED THEN f ELSE s[k]]
Loaded(r, f) == [k \in 1..Len(r) |-> IF r[k] = f THEN MASKED ELSE r[k]]
Used(s) == {s[k] : k \in 1..Len(s)} \ {MASKED}
\* a fill value is usable when it is none of the values which are there
Usable(s, f) == f \notin Used(s)
\* ---- names in the file ----
\* the variables, first to last, each as a name and its content; one whose name is taken by the same content is not
\* written again, one whose name is taken by other content gets the first free name
Num2Str(n) == CASE n = 1 -> "1" [] n = 2 -> "2" [] n = 3 -> "3" [] n = 4 -> "4" [] OTHER -> "5"
Taken(file, nm) == \E j \in 1..Len(file) : file[j].name = nm
ContentOf(file, nm) == LET j == CHOOSE j \in 1..Len(file) : file[j].name = nm IN file[j].v
RECURSIVE Free(_, _, _)
Free(file, nm, n) == IF Taken(file, nm \o "_" \o Num2Str(n)) THEN Free(file, nm, n + 1) ELSE nm \o "_" \o Num2Str(n)
NameFor(file, x) == IF Taken(file, x.name) /\ ContentOf(file, x.name) # x.v THEN Free(file, x.name, 1) ELSE x.name
Put(file, x) == LET nm == NameFor(file, x) IN IF Taken(file, nm) THEN file ELSE Append(file, [name |-> nm, v |-> x.v])
RECURSIVE Names(_, _)
\* the names under which a list of variables is found
Names(file, xs) == IF xs = <<>> THEN <<>> ELSE <<NameFor(file, Head(xs))>> \o Names(Put(file, Head(xs)), Tail(xs))
RECURSIVE PutAll(_, _)
PutAll(file, xs) == IF xs = <<>> THEN file ELSE PutAll(Put(file, Head(xs)), Tail(xs))
\* ---- what is found again ----
TypeIn(dt) == CASE dt = "bool" -> "i1" [] dt = "f2" -> "f4" [] dt = ">i2" -> "i2" [] dt = ">f4" -> "f4" [] dt = ">f8" -> "f8" [] OTHER -> dt
Fine(v, q) == [k \in 1..Len(v) |-> IF v[k] \in {MASKED, NANV, INFV, DEFC} THEN v[k] ELSE v[k] * (4 \div q)]
Keep(e) == Whole(e.coords, Len(e.vars[1].v))
VarIn(e, d) == Fine(Picked(SContent(d), Keep(e)), d.q)
CoordIn(e, c) == Fine(Picked(c.v, Keep(e)), 1)
CoordFile(e) == [j \in 1..Len(e.coords) |-> [name |-> e.coords[j].std, v |-> CoordIn(e, e.coords[j])]]
\* what netCDF fills elements with depends on their type
Kinds == <<"f4", "f8", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8">>
Tagged(v, dt) == IF \E k \in 1..Len(v) : v[k] = DEFC THEN Append(v, LET j == CHOOSE j \in 1..Len(Kinds) : Kinds[j] = TypeIn(dt) IN IF j = 1 THEN 2 ELSE j) ELSE v
VarList(e) == [j \in 1..Len(e.vars) |-> [name |-> e.vars[j].name, v |-> Tagged(VarIn(e, e.vars[j]), e.vars[j].dt)]]
FileNames(e) == LET f == PutAll(CoordFile(e), VarList(e)) IN [j \in 1..Len(f) |-> f[j].name]
=============================================================================
