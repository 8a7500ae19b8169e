------------------------------ MODULE MCStore -------------------------------
(* Writing and reading with a storage type of few values: a fill value is     *)
(* chosen which is none of the values, in whichever way, and the names are    *)
(* given out. What is read is what was saved, and saving it again changes     *)
(* nothing.                                                                   *)
EXTENDS Store
CONSTANTS Type, N, Count
VARIABLES vs, mem, file, k, phase, back, round
vars == <<vs, mem, file, k, phase, back, round>>
Cells == (0..(Type - 1)) \cup {MASKED}
NoFill == BAD
Coord == [name |-> "lat", r |-> [i \in 1..N |-> i - 1], f |-> NoFill]
Pool == {"lat", "x", "x_1"}
Contents == {c \in [1..N -> Cells] : \E f \in 0..(Type - 1) : Usable(c, f)}     \* the type has a value to spare
Init == /\ vs \in [1..Count -> [name : Pool, v : Contents, mv : {0, Type}]]
        /\ mem = vs /\ file = <<Coord>> /\ k = 1 /\ phase = "write" /\ back = <<>> /\ round = 1
View(fl) == [j \in 1..Len(fl) |-> [name |-> fl[j].name, v |-> Loaded(fl[j].r, fl[j].f)]]
\* its own missing value if that can be stored and is none of its values, or else any which is none of its values
FillsFor(x) == IF x.mv \in 0..(Type - 1) /\ Usable(x.v, x.mv) THEN {x.mv} ELSE {f \in 0..(Type - 1) : Usable(x.v, f)}
Write == /\ phase = "write" /\ k <= Len(vs)
         /\ LET x == vs[k]  nm == NameFor(View(file), x) IN
              IF Taken(file, nm) THEN file' = file
              ELSE \E f \in FillsFor(x) : file' = Append(file, [name |-> nm, r |-> Stored(x.v, f), f |-> f])
         /\ k' = k + 1 /\ UNCHANGED <<vs, mem, phase, back, round>>
Read == /\ phase = "write" /\ k > Len(vs)
        /\ back' = View(file) /\ phase' = "read" /\ UNCHANGED <<vs, mem, file, k, round>>
\* what was read carries the fill value it was stored with
Again == /\ phase = "read" /\ round = 1 /\ Len(file) > 1
         /\ vs' = [j \in 1..(Len(file) - 1) |-> [name |-> back[j + 1].name, v |-> back[j + 1].v, mv |-> file[j + 1].f]]
         /\ file' = <<Coord>> /\ k' = 1 /\ phase' = "write" /\ round' = 2 /\ UNCHANGED <<mem, back>>
Next == Write \/ Read \/ Again
Spec == Init /\ [][Next]_vars
\* ---- invariants ----
Logical == View(<<Coord>>)
Expect == Names(Logical, mem)
At(b, nm) == LET j == CHOOSE j \in 1..Len(b) : b[j].name = nm IN b[j].v
Identical == phase = "read" => \A j \in 1..Len(mem) : Taken(back, Expect[j]) /\ At(back, Expect[j]) = mem[j].v
Distinct == \A a, b \in 1..Len(file) : a # b => file[a].name # file[b].name
CoordKept == file[1] = Coord
Fixed == phase = "read" => back = PutAll(Logical, mem)
Unchanged == [][mem' = mem]_vars
=============================================================================
