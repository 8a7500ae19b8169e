---------------------------- MODULE GenUngridded ----------------------------
(* Every missing pattern of two coordinates and the data of four points, in   *)
(* either shape, from one file or two, with each view looked at first; then   *)
(* a dataset is derived in each way and each kind of change is made to either *)
(* of the two.                                                                *)
EXTENDS Common, Json, IOUtils
VARIABLE g
Bits == [1..4 -> 0..1]
First == 0..8
AllA == {<<a, b, m, sh, lz, f>> \in Bits \X Bits \X {<<0,0,0,0>>, <<1,0,1,0>>} \X (1..2) \X (0..1) \X First :
           (Cardinality({k \in 1..4 : a[k] = 1}) + 2 * Cardinality({k \in 1..4 : b[k] = 1}) + sh + lz + f + m[1]) % (IF IOEnv.VERIF_TIER = "quick" THEN 17 ELSE 2) = 0}
A == SetToSeq(AllA)
\* the second kind of missing value is NaN
Src(sh, lz, f, a, b, m) ==
  [shape |-> IF sh = 1 THEN <<4>> ELSE <<2, 2>>, lazy |-> lz * 2, first |-> f, twin |-> f % 2, name |-> "x", dtype |-> "f8", kind |-> "d",
   v |-> <<4, 8, 15, 16 + f>>, m |-> IF m = <<0, 0, 0, 0>> /\ f % 4 # 0 THEN <<>> ELSE m,
   cs |-> <<[std |-> "longitude", v |-> <<350, 10, 11, 12>>, m |-> IF a = <<0, 0, 0, 0>> /\ f % 3 # 0 THEN <<>> ELSE a],
            [std |-> "time", v |-> [k \in 1..4 |-> IF b[k] = 1 THEN NANV ELSE 149000 + k], m |-> <<>>],
            [std |-> "latitude", v |-> <<1, 2, 3, 4>>, m |-> <<>>]>>]
Derive == <<[op |-> "slice", a |-> <<1, 3, 1>>], [op |-> "slice", a |-> <<0, 4, 2>>], [op |-> "slice", a |-> <<3, -1, -1>>],
            [op |-> "copy", a |-> <<>>], [op |-> "bool", a |-> <<1, 0, 1, 1>>], [op |-> "with", a |-> <<9, 9, 8, 7>>],
            [op |-> "row", a |-> <<1>>], [op |-> "slice", a |-> <<0, 1, 1>>], [op |-> "copy", a |-> <<>>]>>
Modify == <<[op |-> "setv", a |-> <<1, 77>>, s |-> ""], [op |-> "maskv", a |-> <<0>>, s |-> ""], [op |-> "setc", a |-> <<2, 1, 9>>, s |-> ""],
            [op |-> "setc", a |-> <<0, 1, NANV>>, s |-> ""], [op |-> "lon", a |-> <<-180>>, s |-> ""], [op |-> "name", a |-> <<>>, s |-> "renamed"],
            [op |-> "units", a |-> <<>>, s |-> "m"], [op |-> "setc", a |-> <<1, 0, 3>>, s |-> ""],
            [op |-> "note", a |-> <<>>, s |-> "n"], [op |-> "att", a |-> <<>>, s |-> "n"], [op |-> "hist", a |-> <<>>, s |-> ""], [op |-> "cname", a |-> <<1>>, s |-> "other"]>>
\* derived from four points in one row (1..6, 9) or two rows of two (7, 8, 9)
AllB == {<<d, w, o, w2, o2, m>> \in (1..9) \X (1..12) \X (1..2) \X (0..12) \X (1..2) \X {<<0,0,0,0>>, <<0,1,0,1>>} :
           /\ (w2 = 0 => o2 = 1)
           /\ (IOEnv.VERIF_TIER # "quick" \/ (w2 = 0 \/ (d + w + o + w2 + o2 + m[2]) % 13 = 0))}
B == SetToSeq(AllB)
Zero == <<0, 0, 0, 0>>
OpOf(w, o) == [op |-> Modify[w].op, o |-> o, a |-> Modify[w].a, s |-> Modify[w].s]
Two(d) == d \in {7, 8, 9}
RecA(j) == LET t == A[j] IN Src(t[4], t[5], t[6], t[1], t[2], t[3]) @@ [ops |-> <<>>]
RecB(j) == LET t == B[j]  IN Src(IF Two(t[1]) THEN 2 ELSE 1, 0, t[2] + 12 * t[1] + 120 * t[3] + 250 * t[4], Zero, Zero, t[6]) @@
  [ops |-> <<[op |-> Derive[t[1]].op, o |-> 1, a |-> Derive[t[1]].a, s |-> ""], OpOf(t[2], t[3])>>
            \o IF t[4] = 0 THEN <<>> ELSE <<OpOf(t[4], t[5])>>]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [j \in 1..Len(A) |-> RecA(j)] \o [j \in 1..Len(B) |-> RecB(j)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
