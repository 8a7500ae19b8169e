------------------------------- MODULE Common -------------------------------
(* Shared vocabulary: encodings used between the harness and the spec.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
BAD    == 77777777     \* a number the code produced that is not on the integer grid of the case
NANV   == 66666666     \* NaN
MASKED == 99999999     \* a missing element
ABSENT == -88888888    \* an optional argument that was not given

Clause(ok, name) == IF ok THEN {} ELSE {name}
AbsI(x) == IF x < 0 THEN -x ELSE x
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxSet(S) == CHOOSE x \in S : \A y \in S : x >= y
Near(a, b, tol) == a = b \/ (a \notin {BAD, NANV, MASKED} /\ b \notin {BAD, NANV, MASKED} /\ AbsI(a - b) <= tol)
\* elementwise selection of positions from a sequence
Pick(s, idx) == [k \in 1..Len(idx) |-> s[idx[k]]]
\* values with their missing flags as one sequence
WithMask(v, m) == [k \in 1..Len(v) |-> IF m # <<>> /\ m[k] = 1 THEN MASKED ELSE v[k]]
\* positions 1..n satisfying P, ascending
Where(n, P(_)) == SelectSeq([k \in 1..n |-> k], P)
\* the element of a sequence of records with field std = s
ByStd(cs, s) == cs[CHOOSE k \in 1..Len(cs) : cs[k].std = s]
HasStd(cs, s) == \E k \in 1..Len(cs) : cs[k].std = s
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
=============================================================================
