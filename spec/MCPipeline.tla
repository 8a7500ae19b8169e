---------------------------- MODULE MCPipeline ----------------------------
(* Chains of commands: every variable's history spells out its derivation. *)
EXTENDS Pipeline
CONSTANTS Depth
VARIABLES st, term, n
vars == <<st, term, n>>
Blank == [cmd |-> "", groups |-> <<>>, kernel |-> "", grid |-> <<>>, opts |-> <<>>, how |-> "", samp |-> [file |-> "", var |-> ""], ov |-> ""]
Start == [f \in {"g0", "u0"} |-> [kind |-> IF f = "g0" THEN "g" ELSE "u", vars |-> [v \in {"a"} |-> <<>>]]]
Group(f, v) == [files |-> <<f>>, vars |-> <<v>>]
Steps(s) == LET fs == DOMAIN s IN
    UNION {{[Blank EXCEPT !.cmd = c, !.groups = <<Group(f, v)>>, !.kernel = k] : c \in {"subset", "aggregate", "collapse"}, k \in {"", "mean"}, v \in DOMAIN s[f].vars} : f \in fs}
    \cup UNION {{[Blank EXCEPT !.cmd = "col", !.groups = <<Group(f, v)>>, !.how = h, !.samp = [file |-> q, var |-> ""]] :
                     h \in {"", "lin", "bin", "box"}, v \in DOMAIN s[f].vars, q \in fs} : f \in fs}
    \cup UNION {{[Blank EXCEPT !.cmd = "eval", !.groups = <<Group(f, v)>>, !.ov = o] : v \in DOMAIN s[f].vars, o \in {"", "a"}} : f \in fs}
Name(k) == "f" \o ToString(k)
Init == st = Start /\ term = [f \in {"g0", "u0"} |-> [v \in {"a"} |-> <<>>]] /\ n = 0
Next == /\ n < Depth
        /\ \E s \in Steps(st) :
             IF Refused(st, s) THEN UNCHANGED vars
             ELSE LET new == NewFile(st, s, [v \in OutNames(st, s) |-> s.cmd])
                      src == Sources(s)[1]
                      (* the derivation, independently: the operation applied to the term of its source *)
                      t == [v \in OutNames(st, s) |-> <<s.cmd, IF s.cmd = "eval" THEN <<>> ELSE term[src[1]][src[2]]>>]
                  IN /\ ~Clash(st, s)
                     /\ st' = Write(st, Name(n + 1), new)
                     /\ term' = Write(term, Name(n + 1), t)
                     /\ n' = n + 1
RECURSIVE Spell(_)
Spell(t) == IF t = <<>> THEN <<>> ELSE Append(Spell(t[2]), t[1])
Histories == \A f \in DOMAIN st : \A v \in DOMAIN st[f].vars : st[f].vars[v] = Spell(term[f][v])
(* nothing is ever ungridded again except by sampling, and only collapse needs a grid *)
Kinds == \A f \in DOMAIN st : \A v \in DOMAIN st[f].vars :
            LET h == st[f].vars[v] IN h # <<>> /\ h[Len(h)] \in {"aggregate", "collapse"} => st[f].kind = "g"
Grows == [][\A f \in DOMAIN st : st'[f] = st[f]]_vars
Spec == Init /\ [][Next]_vars
=============================================================================
