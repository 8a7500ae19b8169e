---------------------------- MODULE MCGroup ----------------------------
(* The reader of a command-line group as a machine consuming one        *)
(* character per step, checked against the declarative meaning in Group *)
(* and against writing: whatever words/options are written down with    *)
(* escapes and brackets are read back unchanged and in any order.       *)
EXTENDS Group, TLC
CONSTANT MaxLen
Alphabet == {"a", ":", "\\", ",", "[", "]", "("}
VARIABLES text, pos, words, cur, esc, depth, pieces, piece
vars == <<text, pos, words, cur, esc, depth, pieces, piece>>

Init == /\ text = "" /\ pos = 0
        /\ words = <<>> /\ cur = "" /\ esc = FALSE       \* the colon reader
        /\ depth = <<>> /\ pieces = <<>> /\ piece = ""   \* the comma reader
Type(c) ==
    /\ Len(text) < MaxLen
    /\ text' = text \o c /\ pos' = pos + 1
    (* colon reader: a pending backslash is emitted unless a colon follows *)
    /\ IF esc /\ c = ":" THEN cur' = cur \o ":" /\ words' = words /\ esc' = FALSE
       ELSE LET base == IF esc THEN cur \o "\\" ELSE cur IN
            IF c = "\\" THEN cur' = base /\ words' = words /\ esc' = TRUE
            ELSE IF c = ":" THEN words' = Append(words, base) /\ cur' = "" /\ esc' = FALSE
            ELSE cur' = base \o c /\ words' = words /\ esc' = FALSE
    (* comma reader *)
    /\ IF c \in Opens THEN depth' = <<Closer(c)>> \o depth /\ piece' = piece \o c /\ pieces' = pieces
       ELSE IF Len(depth) > 0 /\ c = depth[1] THEN depth' = Tail(depth) /\ piece' = piece \o c /\ pieces' = pieces
       ELSE IF c = "," /\ Len(depth) = 0 THEN pieces' = Append(pieces, piece) /\ piece' = "" /\ depth' = depth
       ELSE piece' = piece \o c /\ pieces' = pieces /\ depth' = depth
Next == \E c \in Alphabet : Type(c)
Spec == Init /\ [][Next]_vars

SameWords == Words(text) = Append(words, IF esc THEN cur \o "\\" ELSE cur)
SamePieces == Pieces(text, ",") = Append(pieces, piece) /\ Unclosed(text) = (Len(depth) > 0)
NothingLost == JoinWith(Pieces(text, ","), ",") = text
Escaped == LET w == Words(text) IN
    (\A i \in 1..Len(w) : w[i] = "" \/ Ch(w[i], Len(w[i])) # "\\" \/ i = Len(w))
        => Words(JoinWith([i \in 1..Len(w) |-> Esc(w[i], 1)], ":")) = w
(* a piece never has a separator outside its brackets *)
Atomic == \A i \in 1..Len(Pieces(text, ",")) : Len(Pieces(Pieces(text, ",")[i], ",")) = 1

(* option order is irrelevant *)
Perms(s) == {[i \in 1..Len(s) |-> s[p[i]]] : p \in {q \in [1..Len(s) -> 1..Len(s)] : \A i, j \in 1..Len(s) : q[i] = q[j] => i = j}}
Sample == {"collocator=box[h_sep=1,a_sep=2]", "kernel=mean", "variable=x=y", "product=cis", "product=Bogus", "foo=1", "collocator=box[h"}
ASSUME \A a, b, c \in Sample :
    \A p \in Perms(<<a, b, c>>) :
        LET o == "a.nc:" \o JoinWith(<<a, b, c>>, ",")  q == "a.nc:" \o JoinWith(p, ",")
        IN (~Unclosed(o)) => GroupStatus("sample", o) = GroupStatus("sample", q)
ASSUME /\ GroupStatus("sample", "a.nc:collocator=box[h_sep=1,a_sep=2],kernel=mean") = "ok"
       /\ GroupStatus("sample", "a.nc:kernel=mean,kernel=max") = "bad"
       /\ GroupStatus("basic", "v:a.nc:cis") = "ok"
       /\ GroupStatus("basic", "v:a.nc:product=Bogus") = "bad"
       /\ GroupStatus("basic", "v:a.nc:Bogus") = "bad"
       /\ GroupStatus("basic", "v:c\\:d.nc") = "ok"
       /\ GroupStatus("basic", "v:c:d.nc") = "bad"
       /\ GroupStatus("agg", "v:a.nc:mean") = "bad"
       /\ GroupStatus("plot", "v:a.nc:label=x=y,contlevels=[1,2]") = "ok"
       /\ Mil("-2.5") = -2500 /\ Mil("12") = 12000 /\ Mil("0.125") = 125
=======================================================================
