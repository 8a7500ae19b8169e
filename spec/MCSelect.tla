------------------------------ MODULE MCSelect -----------------------------
(* Names are matched one character at a time by keeping every position of the *)
(* pattern which what was read so far could have led to; files are collected  *)
(* one element after the other.                                               *)
EXTENDS Select
CONSTANTS LenP, LenS
A == 97
B == 98
C == 99
Alphabet == {A, B, DOT}
Pieces == {<<STAR>>, <<QM>>, <<A>>, <<B>>, <<DOT>>, <<OPEN, A, DASH, B, CLOSE>>, <<OPEN, BANG, A, CLOSE>>, <<OPEN>>, <<CLOSE>>}
Flat(ps) == Cat(ps)
Patterns == {Flat(ps) : ps \in UNION {[1..n -> Pieces] : n \in 0..LenP}}
Strings == UNION {[1..n -> Alphabet] : n \in 0..LenS}
\* small trees
Na == <<A>>
Nab == <<A, B>>
Nb == <<B>>
Nh == <<DOT, A>>
Tree == [files |-> <<<<Na>>, <<Nab>>, <<Nb, Na>>, <<Nb, Nab>>, <<Nb, Nh>>, <<Nh>>>>, dirs |-> <<<<Nb>>>>, content |-> <<<<1>>, <<2, 3>>, <<4>>, <<5>>, <<6>>, <<7>>>>]
El(path, slash, dot) == [path |-> path, slash |-> slash, dot |-> dot]
Els == {El(<<Na>>, FALSE, FALSE), El(<<Nab>>, FALSE, TRUE), El(<<Nb>>, TRUE, FALSE), El(<<<<STAR>>>>, FALSE, FALSE), El(<<<<A, STAR>>>>, FALSE, TRUE),
        El(<<Nb, <<QM>>>>, FALSE, FALSE), El(<<<<STAR>>, Nab>>, FALSE, FALSE), El(<<>>, FALSE, TRUE), El(<<<<C>>>>, FALSE, FALSE), El(<<<<DOT, STAR>>>>, FALSE, FALSE)}
VARIABLES kind, p, s, at, els, k, got, bad
vars == <<kind, p, s, at, els, k, got, bad>>
\* positions reachable without reading: a star may stand for nothing
RECURSIVE Eps(_)
Eps(P) == LET Q == P \cup {x + 1 : x \in {y \in P : y <= Len(p) /\ p[y] = STAR}} IN IF Q = P THEN P ELSE Eps(Q)
InitMatch == /\ kind = "match" /\ p \in Patterns /\ s \in Strings /\ at = Eps({1}) /\ els = <<>> /\ k = 1 /\ got = <<>> /\ bad = FALSE
InitFiles == /\ kind = "files" /\ p = <<>> /\ s = <<>> /\ at = {} /\ k = 1 /\ got = <<>> /\ bad = FALSE
             /\ els \in UNION {[1..n -> Els] : n \in 1..LenP}
Init == InitMatch \/ InitFiles
StepTo(x, c) == IF x > Len(p) THEN {}
                ELSE IF p[x] = STAR THEN {x}
                ELSE IF p[x] = QM THEN {x + 1}
                ELSE LET tail == SubSeq(p, x, Len(p)) IN
                     IF p[x] = OPEN /\ CloseAt(tail) > 0 THEN (IF InClass(SubSeq(tail, 1, CloseAt(tail)), c) THEN {x + CloseAt(tail)} ELSE {})
                     ELSE IF p[x] = c THEN {x + 1} ELSE {}
ReadChar == kind = "match" /\ k <= Len(s) /\ at' = Eps(UNION {StepTo(x, s[k]) : x \in at}) /\ k' = k + 1 /\ UNCHANGED <<kind, p, s, els, got, bad>>
TakeElement == /\ kind = "files" /\ k <= Len(els) /\ ~bad
               /\ LET n == Names(Tree, els[k]) IN
                    /\ bad' = ~n.ok
                    /\ LET New(f) == f \notin ToSet(got) IN got' = got \o SelectSeq(n.files, New)
               /\ k' = k + 1 /\ UNCHANGED <<kind, p, s, at, els>>
Next == ReadChar \/ TakeElement
Read == kind = "match" /\ k > Len(s)
Taken == kind = "files" /\ (k > Len(els) \/ bad)
\* ---- invariants ----
TypeOK == k \in 1..(Len(s) + Len(els) + 1) /\ at \subseteq 1..(Len(p) + 1)
CharByChar == Read => ((Len(p) + 1) \in at) = Matches(p, s)
OneByOne == Taken => bad = Refused(Tree, els) /\ (~bad => got = Files(Tree, els))
NoDuplicates == Cardinality(ToSet(got)) = Len(got)
OnlyFiles == ToSet(got) \subseteq ToSet(Tree.files)
\* a pattern without wildcards stands for itself
Plain == (kind = "match" /\ k = 1 /\ ~Wild(p)) => (Matches(p, s) = (p = s))
Everything == (kind = "match" /\ p = <<STAR>>) => Matches(p, s)
\* what is read is everything the files hold, once
Whole == (Taken /\ ~bad) => Len(Content(Tree, els)) = SumSeq([j \in 1..Len(got) |-> Len(Tree.content[Index(Tree, got[j])])])
Spec == Init /\ [][Next]_vars
=============================================================================
