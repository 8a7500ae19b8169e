----------------------------- MODULE GenPacked ------------------------------
(* Every combination of attributes, for each convention and element type.     *)
EXTENDS Packed, Json, IOUtils
VARIABLE g
Quick == IOEnv.VERIF_TIER = "quick"
R(n) == <<n, 1>>
Opt(S) == {<<>>} \cup S
Convs == <<"nc", "sd", "modis", "caliop", "cs", "vd", "table">>
Types == <<"i1", "u1", "i2", "u2", "i4", "f4", "f8">>
Sgd(t) == t \notin {"u1", "u2"}
Flt(t) == t \in {"f4", "f8"}
Ints(t) == IF t = "u1" THEN <<0, 1, 2, 3, 5, 100, 120, 200, 250, 254, 255>>
           ELSE IF t = "u2" THEN <<0, 1, 2, 3, 5, 100, 120, 200, 250, 255, 40000>>
           ELSE IF t = "i1" THEN <<-127, -100, -9, -4, -1, 0, 1, 2, 3, 5, 100, 120, 127>>
           ELSE <<-9999, -9, -4, -1, 0, 1, 2, 3, 5, 100, 127, 300, 30000>>
RawOf(c, t) == [k \in 1..Len(Ints(t)) |-> R(Ints(t)[k])]
            \o (IF Flt(t) THEN <<<<1, 4>>, <<-3, 4>>, <<11, 2>>>> ELSE <<>>)
            \o (IF c = "nc" /\ ~Byte([dt |-> t]) THEN <<DEFV>> ELSE <<>>)
            \o (IF Flt(t) THEN <<UND>> ELSE <<>>)
Neg(t, a, b) == IF Sgd(t) THEN R(a) ELSE R(b)
Fil(c, t) == IF c \in {"vd", "table"} THEN {<<>>} ELSE Opt({Neg(t, -9, 200), R(3), R(0)} \cup (IF c = "nc" /\ Flt(t) THEN {UND} ELSE {}))
Mis(c, t) == IF c = "nc" THEN {<<>>, <<Neg(t, -4, 250)>>, <<R(0)>>, <<Neg(t, -4, 250), R(2)>>}
             ELSE IF c \in {"cs", "vd", "table"} THEN {<<>>, <<R(2)>>, <<R(0)>>, <<Neg(t, -9, 200)>>} ELSE {<<>>}
Ops(c, m) == IF c = "cs" /\ m # <<>> THEN {"", "<", "<=", "==", "=>", ">"} ELSE {""}
Lo(c, t) == IF c = "nc" THEN Opt({Neg(t, -1, 1), R(0)}) ELSE {<<>>}
Hi(c, t) == IF c = "nc" THEN Opt({R(5), R(100)}) ELSE {<<>>}
Rg(c, t) == IF c = "table" THEN {<<>>} ELSE Opt({<<R(0), R(5)>>, <<Neg(t, -4, 2), R(120)>>})
Fmt(c) == IF c = "caliop" THEN {"", "Float_32", "Int_16", "UInt_8", "Int_8"} ELSE {""}
Fv(c, t) == IF c = "caliop" THEN Opt({R(1), Neg(t, -9, 255)}) ELSE {<<>>}
Sc(c) == IF c = "table" THEN {<<>>} ELSE Opt({<<1, 4>>, <<2, 1>>, <<-1, 2>>, <<4, 1>>})
Of(c) == IF c = "table" THEN {<<>>} ELSE Opt({<<10, 1>>, <<-3, 2>>, <<100, 1>>})
\* the attributes are numbered and combinations taken evenly
Choose(S, n) == LET s == SetToSeq(S) IN s[1 + (n % Len(s))]
Per == IF Quick THEN 26 ELSE 260
Rec(a, b, n) ==
  LET c == Convs[a]  t == Types[b]  h == n * 7 + a * 3 + b
      m == Choose(Mis(c, t), n \div 2)
      raw == RawOf(c, t)  z == Len(raw)  k == 1 + (n % (z - 1)) IN
  [conv |-> c, dt |-> t, fill |-> Choose(Fil(c, t), n), missing |-> m, missop |-> Choose(Ops(c, m), n \div 5),
   vmin |-> Choose(Lo(c, t), n \div 3), vmax |-> Choose(Hi(c, t), n \div 4 + b), vrange |-> IF c = "nc" /\ n % 3 # 0 THEN <<>> ELSE Choose(Rg(c, t), n \div 3 + a),
   fmt |-> Choose(Fmt(c), n \div 2), fillvalue |-> IF n % 3 = 0 THEN Choose(Fv(c, t), n \div 3) ELSE <<>>,
   scale |-> Choose(Sc(c), n \div 2 + b), offset |-> Choose(Of(c), n \div 3 + b),
   atype |-> Choose({"same", "double", "text"}, n \div 2), stype |-> Choose({"same", "double"}, n + a + b), junk |-> IF n % 11 = 5 THEN "valid_range" ELSE "",
   files |-> IF n % 3 = 0 THEN <<SubSeq(raw, 1, k), SubSeq(raw, k + 1, z)>> ELSE <<raw>>]
\* tables of signed bytes cannot be written here
All == SetToSeq({x \in (1..Len(Convs)) \X (1..Len(Types)) \X (0..(Per - 1)) : x[2] = 1 => Convs[x[1]] \notin {"vd", "table"}})
Kept == [n \in 1..Len(All) |-> LET r == Rec(All[n][1], All[n][2], All[n][3]) IN [r EXCEPT !.junk = IF r.vrange # <<>> THEN "" ELSE r.junk]]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, Kept)
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
