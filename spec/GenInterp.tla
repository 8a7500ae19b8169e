------------------------------ MODULE GenInterp -----------------------------
(* Every combination of a latitude and a longitude axis of each direction and *)
(* kind, in both orders, with a hole, both methods, with and without          *)
(* extrapolation; the samples run through and beyond the whole grid.          *)
(* One further case: heights which do not vary along the first axis.          *)
EXTENDS Common, Json, IOUtils
VARIABLE g
Lats == <<<<0, 2>>, <<4, 2, 1>>, <<3>>>>
Lons == <<[pts |-> <<0, 90, 180, 270>>, circ |-> 1], [pts |-> <<270, 180, 90, 0>>, circ |-> 1], [pts |-> <<172, 176, 180, 184>>, circ |-> 0],
          [pts |-> <<-6, -2, 0>>, circ |-> 0], [pts |-> <<10, 5>>, circ |-> 0], [pts |-> <<-180, -60, 60>>, circ |-> 1]>>
LatX == <<-1, 0, 1, 2, 3, 4, 5>>
LonX == <<<<0, 45, 270, 300, 359, -30, 405>>, <<0, 45, 270, 300, 359, -30, 405>>, <<171, 172, 174, -180, -177, -176, 186>>,
          <<0, 354, 353, -5, -3, 180, 359>>, <<5, 10, 6, 12, 365, 1, -350>>, <<-180, 180, 60, 120, -120, 300, 0>>>>
All == {<<a, b, o, h, m, ex>> \in (1..3) \X (1..6) \X (0..1) \X (0..2) \X {"lin", "nn"} \X (0..1) :
          IOEnv.VERIF_TIER # "quick" \/ (a + b + o + h + ex) % 2 = 0}
S == SetToSeq(All)
NoCol == [std |-> "", dims |-> <<>>, v |-> <<>>, kind |-> "", delta |-> <<>>, sigma |-> <<>>, orog |-> <<>>]
Rec(j) == LET t == S[j]
              la == [std |-> "latitude", pts |-> Lats[t[1]], circ |-> 0]
              lo == [std |-> "longitude", pts |-> Lons[t[2]].pts, circ |-> Lons[t[2]].circ]
              n == Len(la.pts) * Len(lo.pts)
  IN [q |-> 1, axes |-> IF t[3] = 0 THEN <<la, lo>> ELSE <<lo, la>>, lev |-> 0, col |-> NoCol, scalars |-> <<>>,
      method |-> t[5], extrap |-> t[6], missing |-> 0, sm |-> <<>>, sv |-> <<>>, out_name |-> "", tag |-> "",
      sc |-> <<[std |-> "latitude", v |-> [k \in 1..49 |-> LatX[((k - 1) \div 7) + 1]]],
               [std |-> "longitude", v |-> [k \in 1..49 |-> LonX[t[2]][((k - 1) % 7) + 1]]]>>,
      vars |-> <<[name |-> "v0", v |-> [k \in 1..n |-> (k * k) % 17],
                  m |-> IF t[4] = 0 THEN <<>> ELSE [k \in 1..n |-> IF k = (IF t[4] = 1 THEN 1 ELSE n) THEN 1 ELSE 0]]>>]
Finding ==
  [q |-> 1, axes |-> <<[std |-> "time", pts |-> <<149000, 149001>>, circ |-> 0], [std |-> "latitude", pts |-> <<0, 4>>, circ |-> 0],
                       [std |-> "model_level_number", pts |-> <<1, 2, 3>>, circ |-> 0]>>,
   lev |-> 3, col |-> [std |-> "altitude", dims |-> <<2, 3>>, v |-> <<0, 4, 8, 4, 8, 12>>, kind |-> "aux", delta |-> <<>>, sigma |-> <<>>, orog |-> <<>>],
   scalars |-> <<>>, method |-> "lin", extrap |-> 0, missing |-> 0, sm |-> <<>>, sv |-> <<>>, out_name |-> "", tag |-> "column-after-time",
   sc |-> <<[std |-> "time", v |-> <<149001>>], [std |-> "latitude", v |-> <<1>>], [std |-> "altitude", v |-> <<5>>]>>,
   vars |-> <<[name |-> "v0", v |-> [k \in 1..12 |-> k], m |-> <<>>]>>]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, Append([j \in 1..Len(S) |-> Rec(j)], Finding))
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
