-------------------------------- MODULE Expr --------------------------------
(* Expressions over variables, applied to all the points at once.            *)
EXTENDS Rat, Shapes
Unary == {"neg", "abs", "pow", "tr", "rav", "row"}
NoArr == [ok |-> FALSE, s |-> <<>>, v |-> <<>>]
Map(f(_), x) == [x EXCEPT !.v = [k \in 1..Len(x.v) |-> f(x.v[k])]]
RECURSIVE Value(_, _, _)
\* vs: the values of each variable; sh: the shape of all of them
Value(e, vs, sh) ==
  CASE e.k = "var"  -> [ok |-> TRUE, s |-> sh, v |-> vs[e.i]]
    [] e.k = "num"  -> [ok |-> TRUE, s |-> <<>>, v |-> <<Norm(e.n, e.d)>>]
    [] e.k = "mean" -> LET x == Value(e.a, vs, sh) IN IF x.ok THEN [x EXCEPT !.s = <<>>, !.v = <<RMean(x.v)>>] ELSE NoArr
    [] e.k \in Unary -> LET x == Value(e.a, vs, sh) IN
         IF ~x.ok THEN NoArr
         ELSE (CASE e.k = "neg" -> Map(RNeg, x)
                [] e.k = "abs" -> Map(RAbs, x)
                [] e.k = "pow" -> Map(LAMBDA y : RPow(y, e.n), x)
                [] e.k = "tr"  -> [x EXCEPT !.s = Rev(x.s), !.v = Transposed(x.v, x.s)]
                [] e.k = "rav" -> [x EXCEPT !.s = <<Len(x.v)>>]
                [] e.k = "row" -> [x EXCEPT !.s = Tail(x.s), !.v = SubSeq(x.v, 1, Size(Tail(x.s)))])
    [] OTHER -> LET x == Value(e.a, vs, sh)  y == Value(e.b, vs, sh) IN
         IF ~x.ok \/ ~y.ok THEN NoArr
         ELSE IF ~Agree(x.s, y.s) THEN NoArr
         ELSE LET t == Joint(x.s, y.s)  v == Fill(x.v, x.s, t)  w == Fill(y.v, y.s, t) IN
              [ok |-> TRUE, s |-> t, v |-> [p \in 1..Size(t) |-> RBin(e.k, v[p], w[p])]]
Eval(e, vs, n) == LET x == Value(e, vs, <<n>>) IN Fill(x.v, x.s, <<n>>)
RECURSIVE Uses(_)
Uses(e) == CASE e.k = "var" -> {e.i} [] e.k = "num" -> {}
             [] e.k \in Unary \cup {"mean"} -> Uses(e.a) [] OTHER -> Uses(e.a) \cup Uses(e.b)
=============================================================================
