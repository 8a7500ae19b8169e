---------------------------- MODULE GenGridFile -----------------------------
(* Every way to cut one axis of a small grid into files, with every order of  *)
(* the files, for each axis, rising or falling.                               *)
EXTENDS GridFile, Json, IOUtils
VARIABLE g
Quick == IOEnv.VERIF_TIER = "quick"
Stds == <<"time", "latitude", "longitude", "altitude">>
Base(s) == CASE s = "time" -> 600000 [] s = "latitude" -> -40 [] s = "longitude" -> 0 [] s = "altitude" -> 4
Ax(s, n, up, b) == [std |-> s, circ |-> 0, pts |-> [k \in 1..n |-> Base(s) + 8 * (IF up THEN k ELSE n + 1 - k)],
                    bnds |-> IF ~b THEN <<>> ELSE [j \in 1..(2 * n) |-> LET k == (j + 1) \div 2  c == Base(s) + 8 * (IF up THEN k ELSE n + 1 - k) IN
                        c + (IF (j % 2 = 1) = up THEN -4 ELSE 4)]]
Cuts(n) == {SetToSortSeq(c, <) : c \in SUBSET (1..(n - 1))}
Orders(n) == {p \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => p[a] # p[b]}
Splits == UNION {{<<cs, o>> : o \in Orders(Len(cs) + 1)} : cs \in Cuts(4)}
Orders3(z) == {x \in [1..z -> 1..3] : \A a, b \in 1..z : a # b => x[a] # x[b]}
Fields == SetToSeq({<<kd, x, n>> \in {"air_pressure", "geopotential", "geopotential_height"} \X (Orders3(1) \cup Orders3(2) \cup Orders3(3)) \X (0..2) : TRUE})
FieldRec(n) == LET f == Fields[n]
                   nm == IF f[3] = 0 THEN <<"time", "latitude", "longitude">> ELSE <<"longitude", "time", "latitude">>
                   axes == [k \in 1..3 |-> Ax(nm[k], IF f[3] = 2 THEN 2 ELSE 2 + (k % 2), TRUE, FALSE)]
                   sz == Prod([k \in 1..Len(f[2]) |-> Len(axes[f[2][k]].pts)]) IN
  [q |-> 4, axes |-> axes, aux |-> <<>>, tunit |-> IF n % 2 = 0 THEN "std" ELSE "hours", drop |-> 0,
   vars |-> << [name |-> "aod", std |-> "", long |-> "long aod", units |-> "K", history |-> "", dtype |-> "float64", v |-> [k \in 1..Prod(ShapeOf(axes)) |-> k], m |-> <<>>] >>,
   field |-> [kind |-> f[1], dims |-> [k \in 1..Len(f[2]) |-> nm[f[2][k]]], v |-> [k \in 1..sz |-> (k * k) + 3], extra |-> 0],
   split |-> [d |-> 0, cuts |-> <<>>, order |-> <<1>>]]
NoField == [kind |-> "", dims |-> <<>>, v |-> <<>>, extra |-> 0]
All == SetToSeq({<<s, up, b, x, two>> \in (1..4) \X BOOLEAN \X BOOLEAN \X Splits \X BOOLEAN : (s = 1 => up) /\ (Quick => (Len(x[1]) + s + x[2][1] + (IF b THEN 1 ELSE 0) + (IF two THEN 1 ELSE 0)) % 3 = 0)})
Rec(n) == LET x == All[n]
              other == IF x[1] = 2 THEN "longitude" ELSE "latitude"
              axes == IF n % 2 = 0 THEN <<Ax(Stds[x[1]], 4, x[2], x[3]), Ax(other, 2, TRUE, FALSE)>> ELSE <<Ax(other, 2, TRUE, n % 3 = 0), Ax(Stds[x[1]], 4, x[2], x[3])>>
              dv(name) == [name |-> name, std |-> "", long |-> "long " \o name, units |-> "K", history |-> "made", dtype |-> IF n % 3 = 0 THEN "float32" ELSE "float64",
                        v |-> [k \in 1..8 |-> (k * k) - (n % 5)], m |-> IF n % 4 < 2 THEN <<>> ELSE [k \in 1..8 |-> IF ((k + n) % 3) = 0 THEN 1 ELSE 0]] IN
  [q |-> 4, axes |-> axes, aux |-> <<>>, tunit |-> IF n % 2 = 0 THEN "std" ELSE "hours", drop |-> 0,
   vars |-> IF x[5] THEN <<dv("aod"), dv("num")>> ELSE <<dv("aod")>>,
   field |-> NoField, split |-> [d |-> IF n % 2 = 0 THEN 1 ELSE 2, cuts |-> x[4][1], order |-> x[4][2]]]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [n \in 1..Len(All) |-> Rec(n)] \o [n \in 1..Len(Fields) |-> FieldRec(n)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
