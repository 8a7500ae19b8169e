------------------------------- MODULE GenExpr ------------------------------
(* Every expression of up to two operations on three variables, for missing   *)
(* patterns in each of them, gridded and ungridded.                           *)
EXTENDS Common, Json, IOUtils
VARIABLE g
Bits == [1..4 -> 0..1]
Zero == <<0, 0, 0, 0>>
V(k) == [k |-> "var", i |-> k]
Leaf == <<V(1), V(2), V(3), [k |-> "num", n |-> 3, d |-> 2], [k |-> "num", n |-> -2, d |-> 1], [k |-> "mean", a |-> V(2)]>>
Bin == <<"add", "sub", "mul", "div", "gt">>
Una == <<"neg", "abs", "pow", "none">>
U(u, x) == IF u = "none" THEN x ELSE IF u = "pow" THEN [k |-> "pow", a |-> x, n |-> 2] ELSE [k |-> u, a |-> x]
Exprs == {<<b1, l1, l2, u, b2, l3, side>> \in (1..5) \X (1..6) \X (1..6) \X (1..4) \X (0..5) \X (1..6) \X (0..1) :
           (b2 = 0 => l3 = 1 /\ side = 0) /\ (b2 # 0 => u = 4 \/ (l3 + b1) % 3 = 0)}
ExprOf(t) == LET x == U(Una[t[4]], [k |-> Bin[t[1]], a |-> Leaf[t[2]], b |-> Leaf[t[3]]]) IN
  IF t[5] = 0 THEN x ELSE IF t[7] = 0 THEN [k |-> Bin[t[5]], a |-> x, b |-> Leaf[t[6]]] ELSE [k |-> Bin[t[5]], a |-> Leaf[t[6]], b |-> x]
Masks == SetToSeq({<<a, b, c>> \in Bits \X Bits \X Bits : \A k \in 1..4 : a[k] + b[k] + c[k] <= 2})
All == SetToSeq(Exprs)
Quick == IOEnv.VERIF_TIER = "quick"
Keep == IF Quick THEN SelectSeq([j \in 1..Len(All) |-> j], LAMBDA j : j % 9 = 0) ELSE SelectSeq([j \in 1..Len(All) |-> j], LAMBDA j : j % 2 = 0)
MaskOf(m, j) == IF m = Zero /\ j % 2 = 0 THEN <<>> ELSE m
Rec(n) == LET j == Keep[n]  m == Masks[1 + ((n * 37) % Len(Masks))] IN
  [kind |-> IF n % 2 = 0 THEN "g" ELSE "u", shape |-> IF n % 3 = 0 THEN <<4>> ELSE <<2, 2>>, expr |-> ExprOf(All[j]), style |-> n % 3,
   name |-> IF n % 5 = 0 THEN "" ELSE "res", units |-> IF n % 7 = 0 THEN "" ELSE "m", attrs |-> IF n % 4 = 0 THEN <<<<"note", "made">>>> ELSE <<>>,
   vars |-> <<[name |-> "a", alias |-> "", v |-> <<3, -1, 0, 5>>, m |-> MaskOf(m[1], n), q |-> 2, dtype |-> "float64", shape |-> <<2, 2>>],
              [name |-> "b-1", alias |-> "b", v |-> <<2, 4, -6, 3>>, m |-> MaskOf(m[2], n \div 2), q |-> 1, dtype |-> IF n % 2 = 0 THEN "int32" ELSE "float64", shape |-> <<4>>],
              [name |-> "a_c", alias |-> "", v |-> <<1, 8, 2, NANV>>, m |-> MaskOf(m[3], n \div 4), q |-> 4, dtype |-> "float64", shape |-> <<1, 4>>]>>]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [n \in 1..Len(Keep) |-> Rec(n)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
