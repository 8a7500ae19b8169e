------------------------------- MODULE Select -------------------------------
(* Which files and which variables a specification names. Names are           *)
(* sequences of character codes.                                              *)
EXTENDS Common
STAR == 42
QM == 63
OPEN == 91
CLOSE == 93
BANG == 33
DASH == 45
DOT == 46
SLASH == 47
Rest(s) == Tail(s)
\* the position of the bracket which closes the one at the beginning, 0 if there is none
CloseAt(p) == LET from == IF Len(p) >= 2 /\ p[2] = BANG THEN 4 ELSE 3
                  at == {k \in from..Len(p) : p[k] = CLOSE} IN IF at = {} THEN 0 ELSE MinSet(at)
RECURSIVE InSet(_, _)
InSet(set, c) == IF set = <<>> THEN FALSE
                 ELSE IF Len(set) >= 3 /\ set[2] = DASH THEN (set[1] <= c /\ c <= set[3]) \/ InSet(SubSeq(set, 4, Len(set)), c)
                 ELSE set[1] = c \/ InSet(Rest(set), c)
\* does a class, given with its brackets, hold this character
InClass(cl, c) == LET n == Len(cl) IN IF cl[2] = BANG THEN ~InSet(SubSeq(cl, 3, n - 1), c) ELSE InSet(SubSeq(cl, 2, n - 1), c)
RECURSIVE Matches(_, _)
Matches(p, s) ==
  IF p = <<>> THEN s = <<>>
  ELSE CASE Head(p) = STAR -> \E k \in 0..Len(s) : Matches(Rest(p), SubSeq(s, k + 1, Len(s)))
         [] Head(p) = QM -> s # <<>> /\ Matches(Rest(p), Rest(s))
         [] Head(p) = OPEN /\ CloseAt(p) > 0 -> s # <<>> /\ InClass(SubSeq(p, 1, CloseAt(p)), Head(s)) /\ Matches(SubSeq(p, CloseAt(p) + 1, Len(p)), Rest(s))
         [] OTHER -> s # <<>> /\ Head(s) = Head(p) /\ Matches(Rest(p), Rest(s))
Wild(p) == \E k \in 1..Len(p) : p[k] \in {STAR, QM} \/ (p[k] = OPEN /\ CloseAt(SubSeq(p, k, Len(p))) > 0)
\* ---- order ----
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Rest(a), Rest(b))
Sorted(S) == SetToSortSeq(S, Less)
\* ---- files ----
\* a path is a sequence of names; t.files and t.dirs are what there is
RECURSIVE Spelled(_)
Spelled(path) == IF path = <<>> THEN <<>> ELSE IF Len(path) = 1 THEN path[1] ELSE path[1] \o <<SLASH>> \o Spelled(Tail(path))
ByName(P) == SetToSortSeq(P, LAMBDA a, b : Less(Spelled(a), Spelled(b)))
\* names which begin with a dot are only found by patterns which do
NameMatch(p, s) == IF Wild(p) THEN Matches(p, s) /\ (s[1] = DOT => p[1] = DOT) ELSE p = s
PathMatch(el, path) == Len(el) = Len(path) /\ \A k \in 1..Len(el) : NameMatch(el[k], path[k])
Inside(t, dir) == {f \in ToSet(t.files) : Len(f) = Len(dir) + 1 /\ SubSeq(f, 1, Len(dir)) = dir}
NONE == <<>>
\* what one element of the list stands for: a list of files, or that it is no file
WildEl(el) == \E k \in 1..Len(el.path) : Wild(el.path[k])
IsDir(t, el) == el.path \in ToSet(t.dirs)
Names(t, el) ==
  IF el.path = NONE /\ ~el.dot THEN [ok |-> FALSE, files |-> <<>>]
  ELSE IF WildEl(el) THEN [ok |-> TRUE, files |-> IF el.slash THEN <<>> ELSE ByName({f \in ToSet(t.files) : PathMatch(el.path, f)})]
  ELSE IF el.path = NONE \/ IsDir(t, el) THEN [ok |-> TRUE, files |-> ByName(Inside(t, el.path))]
  ELSE IF el.path \in ToSet(t.files) /\ ~el.slash THEN [ok |-> TRUE, files |-> <<el.path>>]
  ELSE [ok |-> FALSE, files |-> <<>>]
RECURSIVE Once(_, _)
Once(s, seen) == IF s = <<>> THEN <<>> ELSE IF Head(s) \in seen THEN Once(Rest(s), seen) ELSE <<Head(s)>> \o Once(Rest(s), seen \cup {Head(s)})
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Refused(t, els) == \E k \in 1..Len(els) : ~Names(t, els[k]).ok
Files(t, els) == Once(Cat([k \in 1..Len(els) |-> Names(t, els[k]).files]), {})
\* the elements which the files hold, in order; content belongs to the k-th file of t.files
Index(t, f) == CHOOSE k \in 1..Len(t.files) : t.files[k] = f
Content(t, els) == LET fs == Files(t, els) IN Cat([k \in 1..Len(fs) |-> t.content[Index(t, fs[k])]])
\* ---- variables ----
\* listed are the variables of the file; specs the names and patterns given, aliases theirs (or none at all)
Found(listed, p) == IF Wild(p) THEN Sorted({v \in ToSet(listed) : Matches(p, v)}) ELSE <<p>>
NoAlias == <<>>
\* a pattern may stand as its own alias, as it does where none was given
AliasOf(p, a, v) == IF a = NoAlias \/ (Wild(p) /\ a = p) THEN v ELSE a
Chosen(e) == Cat([k \in 1..Len(e.specs) |->
               LET p == e.specs[k]  found == Found(e.listed, p)  a == IF e.aliases = <<>> THEN NoAlias ELSE e.aliases[k]
               IN [j \in 1..Len(found) |-> [var |-> found[j], alias |-> AliasOf(p, a, found[j])]]])
\* an alias cannot be shared
Shared(e) == \E k \in 1..Len(e.specs) : /\ e.aliases # <<>> /\ e.aliases[k] # e.specs[k] /\ Wild(e.specs[k]) /\ Len(Found(e.listed, e.specs[k])) > 1
Unknown(e) == \E k \in 1..Len(e.specs) : ~Wild(e.specs[k]) /\ e.specs[k] \notin ToSet(e.there)
=============================================================================
