------------------------------ MODULE GenStats ------------------------------
(* Every missing pattern of two datasets of five points, as gridded or        *)
(* ungridded data.                                                            *)
EXTENDS Common, Json, IOUtils
VARIABLE g
Quick == IOEnv.VERIF_TIER = "quick"
Bits == [1..5 -> 0..1]
S(b) == Cardinality({k \in 1..5 : b[k] = 1})
V == <<<<1, 2, 4, 1, -2>>, <<3, 1, 2, 5, 4>>, <<-1, -4, 2, 2, 1>>>>
W == <<<<2, 2, -3, 4, 1>>, <<5, 4, 3, 2, 1>>, <<1, 1, 2, 0, 3>>>>
All == {<<a, b, k, j>> \in Bits \X Bits \X (1..3) \X (1..3) : Quick => (S(a) + 2 * S(b) + k + j + a[1] + b[2]) % 9 = 0}
A == SetToSeq(All)
Gar == [k \in 1..5 |-> 9 * k - 20]     \* what is stored where a value is missing
Rec(n) == LET t == A[n] IN
  [kind |-> IF n % 2 = 0 THEN "g" ELSE "u", shape |-> <<5>>, shape2 |-> <<5>>, q |-> 1 + (n % 2), r |-> 1, dtype |-> IF n % 2 = 0 THEN "float64" ELSE "f8", dtype2 |-> IF n % 3 = 0 THEN "int32" ELSE "float64",
   v |-> [k \in 1..5 |-> IF t[1][k] = 1 THEN Gar[k] ELSE V[t[3]][k]], m |-> IF S(t[1]) = 0 /\ n % 3 = 0 THEN <<>> ELSE t[1],
   w |-> [k \in 1..5 |-> IF t[2][k] = 1 THEN Gar[6 - k] ELSE W[t[4]][k]], n |-> IF S(t[2]) = 0 /\ n % 5 < 3 THEN <<>> ELSE t[2]]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [n \in 1..Len(A) |-> Rec(n)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
