------------------------------ MODULE GenStore ------------------------------
(* Every storage type with every kind of missing value, with values which     *)
(* collide with what missing values are usually written as.                   *)
EXTENDS Store, Json, IOUtils
VARIABLE g
Quick == IOEnv.VERIF_TIER = "quick"
Types == <<"bool", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f2", "f4", "f8", ">i2", ">f4", ">f8">>
Flt(t) == t \in {"f2", "f4", "f8", ">f4", ">f8"}
Uns(t) == t \in {"u1", "u2", "u4", "u8"}
Templates(t) ==
  IF t = "bool" THEN <<<<0, 1, 1, 0>>, <<1, 1, 1, 1>>, <<0, 0, 0, 1>>>>
  ELSE IF Uns(t) THEN <<<<1, 2, 3, 0>>, <<0, 0, 9, 254>>, <<DEFC, 1, 253, 0>>, <<9, DEFC, DEFC, 127>>>>
  ELSE IF Flt(t) THEN <<<<1, 2, 3, -4>>, <<0, 0, 9, -99>>, <<NANV, 1, 0, 9>>, <<INFV, NANV, 9, 0>>>> \o (IF t = "f2" THEN <<>> ELSE <<<<DEFC, 1, NANV, 9>>, <<9, DEFC, 0, 0>>>>)
  ELSE <<<<1, 2, 3, -4>>, <<0, 0, 9, -99>>, <<DEFC, 1, -1, -128>>, <<9, DEFC, 127, 0>>>>
Masks == <<<<>>, <<0, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 0, 1>>, <<1, 1, 1, 1>>>>
Mvs(t) == <<[k |-> "none", n |-> 0], [k |-> "num", n |-> -99], [k |-> "num", n |-> 9], [k |-> "num", n |-> 0], [k |-> "nan", n |-> 0], [k |-> "text", n |-> -99],
            [k |-> "pair", n |-> 9], [k |-> "num", n |-> 1], [k |-> "num", n |-> 255]>> \o (IF t \in {"bool", "f2"} THEN <<>> ELSE <<[k |-> "def", n |-> 0]>>)
All == {<<t, a, b, c>> \in (1..Len(Types)) \X (1..6) \X (1..Len(Masks)) \X (1..10) :
          /\ a <= Len(Templates(Types[t])) /\ c <= Len(Mvs(Types[t])) /\ (Quick => (t + 3 * a + 5 * b + 7 * c) % 3 = 0)}
A == SetToSeq(All)
Misc == <<"", "scale_factor", "add_offset", "valid_max", "valid_range", "_FillValue", "missing_value", "valid_min">>
Rec(n) == LET x == A[n]  t == Types[x[1]] IN
  [shape |-> IF n % 4 = 0 THEN <<2, 2>> ELSE <<4>>, src |-> <<"mem", "lazy", "list", "mem">>[1 + (n % 4)],
   coords |-> <<[std |-> "latitude", v |-> <<0, 1, 2, 3>>, m |-> IF n % 7 = 0 THEN <<0, 1, 0, 0>> ELSE <<>>], [std |-> "longitude", v |-> <<5, 5, 6, 6>>, m |-> <<>>],
                [std |-> "time", v |-> <<150000, 150001, 150000, 150003>>, m |-> IF n % 11 = 0 THEN <<1, 0, 0, 0>> ELSE <<>>]>>,
   vars |-> <<[name |-> "x", std |-> "", long |-> IF n % 5 = 0 THEN "" ELSE "the x", units |-> <<"1", "kg m-3", "", "K">>[1 + (n % 4)], history |-> IF n % 3 = 0 THEN "" ELSE "made by hand",
               dt |-> t, q |-> IF Flt(t) THEN 1 + (n % 2) ELSE 1, v |-> Templates(t)[x[2]], m |-> Masks[x[3]], mv |-> Mvs(t)[x[4]], misc |-> Misc[1 + (n % 8)],
               note |-> IF n % 2 = 0 THEN "" ELSE "a note"]>>]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [n \in 1..Len(A) |-> Rec(n)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
