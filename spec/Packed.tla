------------------------------- MODULE Packed -------------------------------
(* What a stored element of a file variable stands for. e.conv says by which  *)
(* convention the variable is written:                                        *)
(*   nc      netCDF               missing: fill, missing values, valid limits; value r * scale + offset *)
(*   sd      HDF4 scientific data missing: fill, valid range;   value r * scale + offset *)
(*   modis   MODIS                missing: fill, valid range;   value (r - offset) * scale *)
(*   caliop  CALIOP               missing: fill (of the format), valid range "a...b"; value r / scale + offset *)
(*   cs      CloudSat arrays      missing: fill, missing value and operator, valid range; value (r - offset) / scale *)
(*   vd      CloudSat tables      missing: missing value, valid range; value (r - offset) / scale *)
(*   table   other tables         missing: missing value; value r *)
(* Elements and attributes are exact rationals. An element <<1>> is the fill  *)
(* value netCDF gives to elements never written, <<0>> is not a number. An    *)
(* attribute which is not there is <<>>.                                      *)
EXTENDS Rat
DEFV == <<1>>
Elems(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
Byte(e) == e.dt \in {"i1", "u1"}
Same(a, r) == a # <<>> /\ Fin(a) /\ Fin(r) /\ a = r
\* the fill value of an element format, where CALIOP gives none
CalFill(e) == IF e.fillvalue # <<>> THEN e.fillvalue
              ELSE IF e.fmt \in {"Float_32", "Int_16", "Int_32"} THEN <<-9999, 1>>
              ELSE IF e.fmt = "UInt_8" THEN <<-127, 1>> ELSE e.fill
Fills(e) == CASE e.conv = "nc" -> {e.fill} \cup Elems(e.missing)
              [] e.conv = "caliop" -> {CalFill(e)}
              [] e.conv \in {"sd", "modis"} -> {e.fill}
              [] e.conv = "cs" -> {e.fill}
              [] e.conv \in {"vd", "table"} -> Elems(e.missing)
Limited(e) == e.conv # "table"
Below(e, r) == Limited(e) /\ Fin(r) /\ ((e.vmin # <<>> /\ RCmp(r, e.vmin) < 0) \/ (e.vrange # <<>> /\ RCmp(r, e.vrange[1]) < 0))
Above(e, r) == Limited(e) /\ Fin(r) /\ ((e.vmax # <<>> /\ RCmp(r, e.vmax) > 0) \/ (e.vrange # <<>> /\ RCmp(r, e.vrange[2]) > 0))
Flagged(e, r) == e.conv = "cs" /\ e.missing # <<>> /\ Fin(r) /\
  LET c == RCmp(r, e.missing[1]) IN
    CASE e.missop = "<" -> c < 0 [] e.missop = "<=" -> c <= 0 [] e.missop = "==" -> c = 0
      [] e.missop = "=>" -> c >= 0 [] e.missop = ">" -> c > 0 [] OTHER -> FALSE
Filled(e, r) == \E f \in Fills(e) : Same(f, r)
Unwritten(e, r) == e.conv = "nc" /\ r = DEFV /\ ~Byte(e) /\ e.fill = <<>>
\* bytes are not expected to have a fill value unless they are given one
ByteFill(e, r) == e.conv = "nc" /\ e.fill = <<>> /\ r = (CASE e.dt = "i1" -> <<-127, 1>> [] e.dt = "u1" -> <<255, 1>> [] OTHER -> DEFV)
Missing(e, r) == Filled(e, r) \/ Unwritten(e, r) \/ Below(e, r) \/ Above(e, r) \/ Flagged(e, r)
Or(a, b) == IF a = <<>> THEN b ELSE a
Scaled(e, r) ==
  LET s == Or(e.scale, <<1, 1>>)  o == Or(e.offset, <<0, 1>>) IN
   CASE e.conv \in {"nc", "sd"} -> RPlus(RTimes(r, s), o)
     [] e.conv = "modis" -> RTimes(RPlus(r, RNeg(o)), s)
     [] e.conv = "caliop" -> RPlus(RTimes(r, RInv(s)), o)
     [] e.conv \in {"cs", "vd"} -> RTimes(RPlus(r, RNeg(o)), RInv(s))
     [] e.conv = "table" -> r
Means(e, r) == IF Missing(e, r) THEN MASKV ELSE IF ByteFill(e, r) THEN ANYV ELSE IF r = UND THEN UND ELSE IF ~Fin(r) THEN ANYV ELSE Scaled(e, r)
\* several files, one after the other
AllRaw(e) == Concat(e.files)
Meaning(e) == LET a == AllRaw(e) IN [k \in 1..Len(a) |-> Means(e, a[k])]
=============================================================================
