------------------------------- MODULE MCExpr -------------------------------
(* Every expression built from two variables of N points in up to Depth steps *)
(* (each step combines what has been built before): missing values spread     *)
(* exactly as stated, and simple algebra holds.                               *)
EXTENDS Expr
CONSTANTS N, Depth
VARIABLES e, v, steps
vars == <<e, v, steps>>
D == {<<>>, <<-1, 2>>, <<0, 1>>, <<2, 1>>}
V(i) == [k |-> "var", i |-> i]
Init == v \in [1..2 -> [1..N -> D]] /\ e \in {V(1), V(2)} /\ steps = 0
Next == /\ steps < Depth /\ steps' = steps + 1 /\ UNCHANGED v
        /\ \E x \in {V(1), V(2), [k |-> "num", n |-> 3, d |-> 2], [k |-> "mean", a |-> V(1)]} :
             \/ \E op \in {"add", "sub", "mul", "div", "gt"} : e' = [k |-> op, a |-> e, b |-> x]
             \/ \E op \in {"sub", "div"} : e' = [k |-> op, a |-> x, b |-> e]
             \/ e' = [k |-> "neg", a |-> e]
             \/ e' = [k |-> "abs", a |-> e]
             \/ e' = [k |-> "pow", a |-> e, n |-> 2]
Spec == Init /\ [][Next]_vars
R == Eval(e, v, N)
HasMean == steps > 0
\* missing wherever a variable used at that point is missing
Spread == \A p \in 1..N : \A i \in {1, 2} : (steps = 0 /\ i \in Uses(e) /\ v[i][p] = MASKV) => R[p] = MASKV
RECURSIVE Local(_)
Local(x) == CASE x.k \in {"var", "num"} -> TRUE [] x.k = "mean" -> FALSE
              [] x.k \in {"neg", "abs", "pow"} -> Local(x.a) [] OTHER -> Local(x.a) /\ Local(x.b)
SpreadAll == Local(e) => \A p \in 1..N : (R[p] = MASKV <=> \E i \in Uses(e) : v[i][p] = MASKV)
\* a point does not depend on the others
ByPoint == Local(e) => \A p \in 1..N : R[p] = Eval(e, [i \in 1..2 |-> <<v[i][p]>>], 1)[1]
Lowest == \A p \in 1..N : Fin(R[p]) => R[p][2] > 0 /\ Gcd(AbsI(R[p][1]), R[p][2]) = 1
Algebra == \A p \in 1..N : LET x == v[1][p]  y == v[2][p] IN
   /\ RBin("add", x, y) = RBin("add", y, x) /\ RBin("mul", x, y) = RBin("mul", y, x)
   /\ (Fin(x) /\ Fin(y)) => RBin("sub", RBin("add", x, y), y) = x
   /\ (Fin(x) /\ Fin(y) /\ y[1] # 0) => RBin("mul", RBin("div", x, y), y) = x
=============================================================================
