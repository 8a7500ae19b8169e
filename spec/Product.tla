------------------------------ MODULE Product ------------------------------
(* Which product opens a file. A product has a name, a priority, signatures   *)
(* (each a list of alternatives written as file name patterns, which must     *)
(* match the whole name whatever its case) and kinds of content it turns      *)
(* down. Plugins are found in one directory and join the ones built in.       *)
EXTENDS Select
LowC(c) == IF 65 <= c /\ c <= 90 THEN c + 32 ELSE c
Low(s) == [k \in 1..Len(s) |-> LowC(s[k])]
SigMatch(sigs, name) == \E k \in 1..Len(sigs) : \E a \in 1..Len(sigs[k]) : Matches(Low(sigs[k][a]), Low(name))
Accepts(p, q) == ~p.abstract /\ SigMatch(p.sigs, q.name) /\ q.content \notin ToSet(p.rejects)
\* of the same priority the first by name
Before(p, r) == p.prio > r.prio \/ (p.prio = r.prio /\ Less(p.name, r.name))
First(P) == CHOOSE p \in P : \A r \in P \ {p} : Before(p, r)
NOBODY == <<>>
Named(P, name) == {p \in P : ~p.abstract /\ p.name = name}
Opens(P, q) == IF q.product # <<>> THEN (IF Named(P, q.product) = {} THEN NOBODY ELSE q.product)
               ELSE LET A == {p \in P : Accepts(p, q)} IN IF A = {} THEN NOBODY ELSE First(A).name
\* a plugin which takes everything but its name from its parent
Called(S, name) == CHOOSE p \in S : p.name = name
RECURSIVE Full(_, _)
Full(S, p) == IF p.parent = <<>> \/ ~p.inherit THEN p
              ELSE LET f == Full(S, Called(S, p.parent)) IN [p EXCEPT !.prio = f.prio, !.sigs = f.sigs, !.rejects = f.rejects]
Registered(built, plugins) == LET S == built \cup plugins IN {Full(S, p) : p \in S}
=============================================================================
