------------------------------ MODULE MCProduct ----------------------------
(* Plugins join the products one at a time, in any order of the files they    *)
(* are in; then products of the greatest priority left are asked one by one   *)
(* until one accepts.                                                         *)
EXTENDS Product
CONSTANTS Priorities, Most
X == 120
Y == 121
DOTC == DOT
Sigs == {<<>>, <<<<<<STAR>>>>>>, <<<<<<X, STAR>>, <<Y>>>>>>, <<<<<<STAR, Y>>>>, <<<<88>>>>>>}
Names3 == <<<<65>>, <<66>>, <<97>>>>
Rejects == {<<>>, <<"k">>}
Prod(n, s, r, pr, ab) == [name |-> Names3[n], prio |-> pr, sigs |-> s, rejects |-> r, abstract |-> ab, parent |-> <<>>, inherit |-> FALSE]
Queries == [name : {<<X>>, <<Y>>, <<88, Y>>, <<X, X>>}, content : {"k", "l"}, product : {<<>>, <<65>>, <<90>>}]
VARIABLES todo, known, q, left, done, got
vars == <<todo, known, q, left, done, got>>
Init == /\ \E n \in 1..Most : todo \in [1..n -> {Prod(1, s, r, pr, ab) : s \in Sigs, r \in Rejects, pr \in Priorities, ab \in BOOLEAN}]
        /\ known = {} /\ q \in Queries /\ left = {} /\ done = FALSE /\ got = NOBODY
All == {[todo[k] EXCEPT !.name = Names3[k]] : k \in 1..Len(todo)}
Load == /\ left = {} /\ ~done /\ known # All /\ \E p \in All \ known : known' = known \cup {p}
        /\ left' = (IF known' = All THEN known' ELSE {}) /\ UNCHANGED <<todo, q, done, got>>
Ask == /\ left # {} /\ ~done
       /\ \E p \in left : /\ \A r \in left \ {p} : Before(p, r)
                          /\ IF (IF q.product # <<>> THEN ~p.abstract /\ p.name = q.product ELSE Accepts(p, q))
                             THEN done' = TRUE /\ got' = p.name /\ left' = left
                             ELSE left' = left \ {p} /\ done' = (left = {p}) /\ got' = got
       /\ UNCHANGED <<todo, known, q>>
Next == Load \/ Ask
TypeOK == known \subseteq All /\ left \subseteq All
FoundIsDefined == done => got = Opens(All, q)
Highest == (done /\ got # NOBODY /\ q.product = <<>>) => \A p \in All : Accepts(p, q) => p.prio <= (Called(All, got)).prio
NeverAbstract == (done /\ got # NOBODY) => ~(Called(All, got)).abstract
NobodyMeansNone == (done /\ got = NOBODY /\ q.product = <<>>) => \A p \in All : ~Accepts(p, q)
Explicit == (done /\ q.product # <<>>) => got \in {NOBODY, q.product}
CaseBlind == \A s \in Sigs : SigMatch(s, <<X>>) = SigMatch(s, <<88>>)
Spec == Init /\ [][Next]_vars
=============================================================================
