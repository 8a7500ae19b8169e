------------------------------ MODULE MCColloc ------------------------------
(* One collocator serves the variables of a list in turn and keeps what it    *)
(* worked out about a geometry (the k-D tree or interpolation indices). Every *)
(* variable gets what it would get on its own if and only if what is kept is  *)
(* used for that same geometry only: the geometry is that of the points which *)
(* have a value for a tree over data points, that of the grid for             *)
(* interpolation. The other half of the model is the masking rule: masking    *)
(* twice is masking once, and masking never changes another element.          *)
EXTENDS Colloc
CONSTANTS NV, NG
VARIABLES geo, todo, kept, out
vars == <<geo, todo, kept, out>>
Alone(w) == <<w, geo[w]>>
Init == /\ geo \in [1..NV -> 1..NG]
        /\ todo = 1
        /\ kept = 0
        /\ out = <<>>
\* what is kept is replaced when the geometry differs
Process == /\ todo <= NV
           /\ kept' = geo[todo]
           /\ out' = Append(out, <<todo, kept'>>)
           /\ todo' = todo + 1
           /\ UNCHANGED geo
Next == Process
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
EachAlone == \A w \in 1..Len(out) : out[w] = Alone(w)
InOrder == Len(out) = todo - 1
Done == <>(Len(out) = NV)
Axes2 == <<[std |-> "latitude", v |-> <<0, 1>>], [std |-> "longitude", v |-> <<5, 6, 7>>]>>
Es == {[skind |-> "g", dkind |-> "g", sm |-> m, missing |-> x, sc |-> s] :
         m \in {<<0, 1>>, <<1, 0>>, <<1, 1>>}, x \in {-1, 0, 1}, s \in {<<Axes2[1]>>}}
      \cup {[skind |-> "g", dkind |-> "u", sm |-> m, missing |-> x, sc |-> Axes2] :
         m \in [1..6 -> 0..1], x \in {-1, 0, 1}}
D == [cs |-> Axes2]
V6 == <<1, 2, MASKED, 4, 5, 6>>
ASSUME \A e \in Es : LET r == Masked(e, D, V6) IN
         /\ Masked(e, D, r) = r
         /\ \A p \in 1..6 : r[p] \in {V6[p], MASKED}
         /\ (e.missing = 0 => r = V6)
ASSUME \A e \in Es : e.missing # 0 /\ Len(e.sc) = 2 => \A p \in 1..6 : (Masked(e, D, V6)[p] = MASKED) <=> (p = 3 \/ e.sm[p] = 1)
=============================================================================
