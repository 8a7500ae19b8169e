------------------------------ MODULE GenRegrid -----------------------------
(* Two-dimensional data of each longitude kind onto samples with the axes in  *)
(* either order, one axis missing or one too many, both methods, with gaps in *)
(* the data, in the sample or both.                                           *)
EXTENDS Common, Json, IOUtils
VARIABLE g
Lons == <<[pts |-> <<0, 90, 180, 270>>, circ |-> 1], [pts |-> <<172, 176, 180, 184>>, circ |-> 0], [pts |-> <<-6, -2, 0>>, circ |-> 0],
          [pts |-> <<10, 5>>, circ |-> 0], [pts |-> <<-180, -60, 60>>, circ |-> 1]>>
LonX == <<<<-45, 0, 30, 270, 300>>, <<-189, -188, -186, -180, -177>>, <<354, 356, 358, 360, 362>>, <<4, 5, 7, 10, 11>>, <<60, 120, 150, 180, 300>>>>
Lat == [std |-> "latitude", pts |-> <<4, 2, 0>>, circ |-> 0, bnds |-> <<>>]
La == [std |-> "latitude", pts |-> <<0, 1, 4, 5>>, bnds |-> <<>>]
Tm == [std |-> "time", pts |-> <<149000, 149001>>, bnds |-> <<>>]
Kinds == <<"both", "swap", "lat", "lon", "more">>
All == {<<b, k, h, m, s, ms>> \in (1..5) \X (1..5) \X (0..2) \X {"lin", "nn"} \X (0..1) \X (0..1) :
          IOEnv.VERIF_TIER # "quick" \/ (b + k + h + s + ms) % 2 = 0}
S == SetToSeq(All)
Rec(j) == LET t == S[j]
              lo == [std |-> "longitude", pts |-> Lons[t[1]].pts, circ |-> Lons[t[1]].circ, bnds |-> <<>>]
              lx == [std |-> "longitude", pts |-> LonX[t[1]], bnds |-> <<>>]
              n == 3 * Len(lo.pts)
              smp == CASE Kinds[t[2]] = "both" -> <<La, lx>> [] Kinds[t[2]] = "swap" -> <<lx, La>> [] Kinds[t[2]] = "lat" -> <<La>>
                       [] Kinds[t[2]] = "lon" -> <<lx>> [] OTHER -> <<lx, Tm, La>>
              ns == CASE Kinds[t[2]] \in {"both", "swap"} -> 20 [] Kinds[t[2]] = "lat" -> 4 [] Kinds[t[2]] = "lon" -> 5 [] OTHER -> 40
  IN [q |-> 1, axes |-> <<Lat, lo>>, sample |-> smp, method |-> t[4], extrap |-> 0, missing |-> t[6],
      sm |-> IF t[5] = 0 THEN <<>> ELSE [k \in 1..ns |-> IF k % 3 = 1 THEN 1 ELSE 0], sv |-> [k \in 1..ns |-> k],
      out_name |-> "", out_long |-> "", out_units |-> "",
      vars |-> <<[name |-> "v0", v |-> [k \in 1..n |-> (k * k) % 17],
                  m |-> IF t[3] = 0 THEN <<>> ELSE [k \in 1..n |-> IF k = (IF t[3] = 1 THEN 1 ELSE n) THEN 1 ELSE 0]]>>]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [j \in 1..Len(S) |-> Rec(j)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
