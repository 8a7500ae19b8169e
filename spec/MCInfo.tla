------------------------------- MODULE MCInfo -------------------------------
(* A reader walks the groups of every file with a stack of groups still to be *)
(* looked into, then strikes out of what it found whatever has a dimension it *)
(* cannot place, one dimension after another, and gathers what is left of     *)
(* each file.                                                                 *)
EXTENDS Info
CONSTANTS Depth, MaxVars, MaxFiles
Groups == {"a", "b"}
Names == {"a", "v"}
Dims == {"p", "q"}
Chains == UNION {[1..n -> Groups] : n \in 0..Depth}
Paths == {g \o <<n>> : g \in Chains, n \in Names}
DimLists == {<<>>, <<"p">>, <<"q">>, <<"p", "q">>, <<"q", "p">>}
\* the dimensions a variable has follow from where it is, so that all of them come up
DimsOf(path) == LET k == Len(path) + (IF path[Len(path)] = "v" THEN 1 ELSE 0) + Cardinality({j \in 1..Len(path) : path[j] = "b"}) IN
                CASE k % 5 = 0 -> <<"p">> [] k % 5 = 1 -> <<"q">> [] k % 5 = 2 -> <<"p", "q">> [] k % 5 = 3 -> <<>> [] OTHER -> <<"q", "p">>
Var(path) == [path |-> path, dims |-> DimsOf(path), values |-> <<1>>]
Sets == {S \in SUBSET Paths : Cardinality(S) \in 1..MaxVars /\ \A x \in S, y \in S : ~(Len(x) < Len(y) /\ SubSeq(y, 1, Len(x)) = x)}
FileOf(S) == SetToSeq({Var(x) : x \in S})
Valids == {[any |-> TRUE, names |-> <<>>], [any |-> FALSE, names |-> <<"p">>], [any |-> FALSE, names |-> <<"q", "p">>]}
VARIABLES files, valid, k, stack, found, todo, dim, all
vars == <<files, valid, k, stack, found, todo, dim, all>>
Init == /\ \E m \in 1..MaxFiles : files \in [1..m -> {FileOf(S) : S \in Sets}]
        /\ valid \in Valids /\ k = 1 /\ stack = <<<<>>>> /\ found = <<>> /\ todo = <<>> /\ dim = 0 /\ all = {}
Busy == k <= Len(files)
Here(g) == SelectSeq(files[k], LAMBDA v : SubSeq(v.path, 1, Len(v.path) - 1) = g)
\* the groups right inside g
Inner(g) == SetToSeq({SubSeq(v.path, 1, Len(g) + 1) : v \in {w \in ToSet(files[k]) : Len(w.path) > Len(g) + 1 /\ SubSeq(w.path, 1, Len(g)) = g}})
Walk == /\ Busy /\ stack # <<>> /\ todo = <<>>
        /\ LET g == Head(stack) IN found' = found \o Here(g) /\ stack' = Inner(g) \o Tail(stack)
        /\ todo' = IF stack' = <<>> THEN found' ELSE <<>>
        /\ dim' = 1 /\ UNCHANGED <<files, valid, k, all>>
Without(s, v) == SelectSeq(s, LAMBDA w : w # v)
\* one dimension of the variable at hand
Strike == /\ Busy /\ stack = <<>> /\ todo # <<>>
          /\ LET v == Head(todo) IN
             IF valid.any \/ dim > Len(v.dims) THEN todo' = Tail(todo) /\ dim' = 1 /\ UNCHANGED found
             ELSE IF v.dims[dim] \notin ToSet(valid.names) THEN found' = Without(found, v) /\ todo' = Tail(todo) /\ dim' = 1
             ELSE dim' = dim + 1 /\ UNCHANGED <<todo, found>>
          /\ UNCHANGED <<files, valid, k, stack, all>>
Gather == /\ Busy /\ stack = <<>> /\ todo = <<>>
          /\ all' = all \cup {found[j].path : j \in 1..Len(found)} /\ k' = k + 1 /\ found' = <<>> /\ stack' = <<<<>>>> /\ dim' = 0
          /\ UNCHANGED <<files, valid, todo>>
Next == Walk \/ Strike \/ Gather
\* ---- invariants ----
TypeOK == k \in 1..(Len(files) + 1) /\ all \subseteq Paths
Done == k > Len(files)
\* the walk finds every variable once
Once == Cardinality(ToSet(found)) = Len(found)
Stepwise == Done => all = Listed(files, valid)
EachFile == Done => all = UNION {Listed(<<files[j]>>, valid) : j \in 1..Len(files)}
\* what is listed can be found in one of the files under the same name
Readable == Done => \A x \in all : \E j \in 1..Len(files) : Holds(files[j], x) /\ Fits(In(files[j], x), valid)
Unlisted == Done => \A j \in 1..Len(files) : \A v \in ToSet(files[j]) : v.path \notin all => ~Fits(v, valid)
Spec == Init /\ [][Next]_vars
=============================================================================
