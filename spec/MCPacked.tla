------------------------------ MODULE MCPacked ------------------------------
(* Reading a packed variable step by step: the maskings may be done in any    *)
(* order, the scaling comes after all of them; files are read one at a time   *)
(* and put behind one another. However it is done, the result is the meaning  *)
(* of each stored element.                                                    *)
EXTENDS Packed, TLC
CONSTANTS Wide
V == -2..3
R(n) == <<n, 1>>
Opt(S) == {<<>>} \cup S
Raw == <<<<R(-2), R(0), R(3)>>, <<R(-1), R(1), R(2), DEFV>>>>
RawV == <<<<R(-2), R(0), R(3)>>, <<R(-1), R(1), R(2)>>>>
Confs ==
  {[conv |-> c, dt |-> "i2", fill |-> f, fillvalue |-> fv, fmt |-> "", missing |-> m, missop |-> o, vmin |-> a, vmax |-> b, vrange |-> r, scale |-> s, offset |-> t,
    files |-> IF c = "nc" THEN Raw ELSE RawV] :
     c \in {"nc", "sd", "modis", "caliop", "cs", "vd", "table"}, f \in Opt({R(-2)}), fv \in Opt(IF Wide THEN {R(1)} ELSE {}),
     m \in Opt({<<R(1)>>, <<R(1), R(3)>>}), o \in (IF Wide THEN {"", "<", "<=", "==", "=>", ">"} ELSE {"", "<", "=="}),
     a \in Opt({R(0)}), b \in Opt({R(1)}), r \in Opt({<<R(-1), R(2)>>}), s \in Opt({<<1, 2>>}), t \in Opt({R(3)})}
Conf == {e \in Confs : /\ (e.conv # "caliop" => e.fillvalue = <<>>) /\ (e.conv # "cs" => e.missop = "")
                       /\ (e.conv # "nc" => e.vmin = <<>> /\ e.vmax = <<>>) /\ (e.conv \in {"sd", "modis", "caliop"} => e.missing = <<>>)
                       /\ (e.conv # "nc" => Len(e.missing) <= 1) /\ (e.conv \in {"vd", "table"} => e.fill = <<>>)
                       /\ (e.conv = "table" => e.vrange = <<>> /\ e.scale = <<>> /\ e.offset = <<>>)}
VARIABLES e, todo, cur, k, out
vars == <<e, todo, cur, k, out>>
Steps == {"fill", "unwritten", "low", "high", "flag"}
\* an element being worked on: its stored value, whether it has been masked, and its value
Load(f) == [j \in 1..Len(f) |-> [r |-> f[j], m |-> FALSE, v |-> f[j]]]
Init == e \in Conf /\ k = 1 /\ todo = Steps /\ cur = Load(e.files[1]) /\ out = <<>>
Hit(s, r) == CASE s = "fill" -> Filled(e, r) [] s = "unwritten" -> Unwritten(e, r) [] s = "low" -> Below(e, r)
               [] s = "high" -> Above(e, r) [] s = "flag" -> Flagged(e, r)
\* masks are taken from the element as it is now
MaskStep == \E s \in todo : /\ todo' = todo \ {s}
                            /\ cur' = [j \in 1..Len(cur) |-> IF Hit(s, cur[j].v) THEN [cur[j] EXCEPT !.m = TRUE] ELSE cur[j]]
                            /\ UNCHANGED <<e, k, out>>
ScaleStep == /\ todo = {} /\ k <= Len(e.files)
             /\ out' = out \o [j \in 1..Len(cur) |-> IF cur[j].m THEN MASKV ELSE IF Fin(cur[j].v) THEN Scaled(e, cur[j].v) ELSE ANYV]
             /\ k' = k + 1 /\ e' = e
             /\ IF k < Len(e.files) THEN todo' = Steps /\ cur' = Load(e.files[k + 1]) ELSE todo' = {} /\ cur' = <<>>
Next == MaskStep \/ ScaleStep
\* ---- invariants ----
TypeOK == todo \subseteq Steps /\ k \in 1..(Len(e.files) + 1)
Finished == k > Len(e.files)
AnyOrder == Finished => out = Meaning(e)
EveryElement == Finished => Len(out) = Len(AllRaw(e))
\* a limit only ever takes elements away
Narrower == LET w == [e EXCEPT !.vmin = <<>>, !.vmax = <<>>, !.vrange = <<>>]  a == AllRaw(e) IN
            \A j \in 1..Len(a) : Missing(w, a[j]) => Missing(e, a[j])
\* scaling does not decide what is missing
ScaleFree == LET w == [e EXCEPT !.scale = <<>>, !.offset = <<>>]  a == AllRaw(e) IN \A j \in 1..Len(a) : Missing(w, a[j]) = Missing(e, a[j])
\* packing what was read gives the stored element back
Pack(v) == LET s == Or(e.scale, <<1, 1>>)  o == Or(e.offset, <<0, 1>>) IN
   CASE e.conv \in {"nc", "sd"} -> RTimes(RPlus(v, RNeg(o)), RInv(s))
     [] e.conv = "modis" -> RPlus(RTimes(v, RInv(s)), o)
     [] e.conv = "caliop" -> RTimes(RPlus(v, RNeg(o)), s)
     [] e.conv \in {"cs", "vd"} -> RPlus(RTimes(v, s), o)
     [] e.conv = "table" -> v
Packs == LET a == AllRaw(e) IN \A j \in 1..Len(a) : LET v == Means(e, a[j]) IN (v # MASKV /\ Fin(v)) => Pack(v) = a[j]

Spec == Init /\ [][Next]_vars
=============================================================================
