------------------------------- MODULE MCStats ------------------------------
(* Pairs of datasets built up point by point: what a point missing from       *)
(* either dataset holds in the other one never matters, and the statistics    *)
(* are related as they should be.                                             *)
EXTENDS Stats
CONSTANTS N, M
VARIABLES v, w
vars == <<v, w>>
D == {MASKV} \cup {<<x, 1>> : x \in 1..M}
Init == v = <<>> /\ w = <<>>
Next == Len(v) < N /\ \E x, y \in D : v' = Append(v, x) /\ w' = Append(w, y)
Spec == Init /\ [][Next]_vars
X == Pick(v, Both(v, w))
Y == Pick(w, Both(v, w))
n == Len(X)
Means == n > 0 => Mean(Diff(X, Y)) = RSub(Mean(Y), Mean(X))
Symmetric == n > 1 => SS(X, Y) = SS(Y, X) /\ Var1(Diff(X, Y)) = Var1(Diff(Y, X))
Cauchy == n > 1 /\ ~Constant(X) /\ ~Constant(Y) =>
    /\ LET c == Corr(X, Y) IN RCmp(c.sq, <<1, 1>>) <= 0 /\ (c.sq[1] = 0 <=> c.sgn = 0)
    /\ Corr(Ranks(X), Ranks(Y)).sq[1] <= Corr(Ranks(X), Ranks(Y)).sq[2]
    /\ RPlus(RTimes(Grad(X, Y), Mean(X)), Icpt(X, Y)) = Mean(Y)
Itself == n > 1 /\ ~Constant(X) => Corr(X, X) = [sgn |-> 1, sq |-> <<1, 1>>] /\ Grad(X, X) = <<1, 1>> /\ Icpt(X, X) = <<0, 1>>
RanksSum == n > 0 => RSum(Ranks(X)) = Norm(n * (n + 1), 2)
\* a step which adds a point missing somewhere changes nothing
Ignored == [][(v'[Len(v')] = MASKV \/ w'[Len(w')] = MASKV) => (X' = X /\ Y' = Y)]_vars
=============================================================================
