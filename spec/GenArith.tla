------------------------------ MODULE GenArith ------------------------------
(* Every operation in every form with every kind of right operand, for each   *)
(* missing pattern of two datasets, followed by each modification of either   *)
(* operand or the result.                                                     *)
EXTENDS Common, Json, IOUtils
VARIABLE g
Quick == IOEnv.VERIF_TIER = "quick"
Bits == [1..3 -> 0..1]
Op == <<"add", "sub", "mul", "div", "pow", "abs">>
Kind == <<"ds", "num", "arr", "marr", "alt", "self">>
How == <<"op", "fn", "ip", "refl">>
Then == <<"none", "setv", "maskv", "setc", "name">>
All == {<<op, kd, hw, m1, m2, th, o, d>> \in (1..6) \X (1..6) \X (1..4) \X Bits \X Bits \X (1..5) \X (1..3) \X (1..2) :
          /\ (op >= 5 => kd = 2) /\ (hw = 4 => kd = 2 /\ op \in {1, 3}) /\ (op = 6 => hw # 1)
          /\ (th = 1 => o = 1) /\ (hw = 3 => o # 3)
          /\ (op * 7 + kd * 5 + hw * 3 + m1[1] + 2 * m1[2] + 4 * m1[3] + 3 * m2[1] + 5 * m2[2] + m2[3] + th + o + d) % (IF Quick THEN 41 ELSE 5) = 0}
A == SetToSeq(All)
Set(nm, v, m, u, dt) == [name |-> nm, v |-> v, m |-> IF m = <<0, 0, 0>> THEN <<>> ELSE m, q |-> 1, units |-> u, dtype |-> dt, shape |-> <<3>>,
                     cs |-> <<[std |-> "altitude", v |-> <<3, 5, 7>>], [std |-> "latitude", v |-> <<1, 2, 3>>]>>]
Rec(t) == LET op == Op[t[1]]  kd == Kind[t[2]] IN
  [sets |-> <<Set("x", <<4, -6, 3>>, t[4], <<1, 0, 0, 0>>, IF t[8] = 1 THEN "float64" ELSE "int32"), Set("y", <<2, 5, 0>>, t[5], IF t[1] + t[6] > 4 THEN <<0, 1, 0, 0>> ELSE <<1, 0, 0, 0>>, "float64")>>,
   ops |-> <<[op |-> op, o |-> 1, how |-> How[t[3]], b |-> IF kd = "self" THEN 1 ELSE 2,
              kind |-> IF kd = "self" THEN "ds" ELSE IF kd = "marr" THEN "arr" ELSE kd,
              x |-> IF op = "pow" THEN <<2, 1>> ELSE IF kd = "num" THEN <<3, 2>> ELSE IF kd \in {"arr", "marr"} THEN <<2, 8, 5>> ELSE <<>>,
              xs |-> <<3>>, xm |-> IF kd = "marr" THEN <<0, 1, 0>> ELSE <<>>]>>
       \o IF t[6] = 1 THEN <<>> ELSE
          <<[op |-> Then[t[6]], o |-> t[7], how |-> "", b |-> 1, kind |-> "", xs |-> <<>>, xm |-> <<>>,
             x |-> CASE Then[t[6]] = "setv" -> <<1, 50>> [] Then[t[6]] = "maskv" -> <<2>> [] Then[t[6]] = "setc" -> <<1, 1, 60>> [] OTHER -> <<>>]>>]
\* the third dataset is the result, which is there only where the operation is not refused
Ok(t) == t[7] < 3 \/ ~(Op[t[1]] \in {"add", "sub"} /\ ((Kind[t[2]] = "ds" /\ t[1] + t[6] > 4)))
Sel == SelectSeq(A, Ok)
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [j \in 1..Len(Sel) |-> Rec(Sel[j])])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
