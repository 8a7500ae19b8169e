------------------------------ MODULE GenColloc -----------------------------
(* Every pair of data and sample kinds with every method (accepted or not),   *)
(* kernel, masking request, naming option and number of variables.            *)
EXTENDS Common, Json, IOUtils
VARIABLE g
Hows == <<"", "lin", "nn", "bin", "box", "dummy">>
Kerns == <<"", "moments", "mean", "nn_h", "nokernel">>
All == {<<sk, dk, h, k, m, s, o, nv>> \in {"u", "c", "g"} \X {"u", "g"} \X (1..6) \X (1..5) \X (-1..1) \X (0..1) \X (0..2) \X (1..3) :
          /\ (dk = "g" => k = 1)
          /\ (sk = "c" => s = 0)
          /\ (h > 3 /\ ~(h = 4 /\ sk = "g") => o = 0)
          /\ (k = 5 => m = 0 /\ o = 0)
          /\ (sk = "g" /\ h # 5 => k # 4)       \* the nearest neighbour kernels work on points found by box
          /\ (IOEnv.VERIF_TIER # "quick" \/ (h + k + m + s + o + nv) % 3 = 0)}
S == SetToSeq(All)
Lat == [std |-> "latitude", v |-> <<0, 1, 2>>]
Lon == [std |-> "longitude", v |-> <<10, 12>>]
Pts == <<[std |-> "latitude", v |-> <<0, 1, 2, 1>>], [std |-> "longitude", v |-> <<10, 12, 11, 371>>]>>
DPts == <<[std |-> "latitude", v |-> <<0, 1, 2, 1, 0, 3>>], [std |-> "longitude", v |-> <<10, 12, 372, 10, 11, 15>>]>>
DLat == [std |-> "latitude", v |-> <<-1, 0, 2, 3>>]
DLon(w) == [std |-> "longitude", v |-> IF w = 3 THEN <<8, 11, 14>> ELSE <<9, 11, 13>>]
N(dk) == IF dk = "u" THEN 6 ELSE 12
Var(dk, w) == [name |-> <<"v0", "v1", "v2">>[w], long |-> <<"long x", "y", "zed">>[w], units |-> <<"1", "m", "K">>[w],
               stdname |-> <<"", "", "air_temperature">>[w],
               cs |-> IF dk = "u" THEN DPts ELSE <<DLat, DLon(w)>>,
               v |-> [k \in 1..N(dk) |-> (k * k * w) % 17], m |-> IF w = 1 THEN <<>> ELSE [k \in 1..N(dk) |-> IF k % 5 = w THEN 1 ELSE 0]]
Rec(j) == LET t == S[j]
              ns == IF t[1] = "g" THEN 6 ELSE 4 IN
  [skind |-> t[1], dkind |-> t[2], how |-> Hows[t[3]],
   kern |-> IF t[2] = "g" THEN "" ELSE IF t[4] = 1 THEN "moments" ELSE Kerns[t[4]], dkern |-> IF t[4] = 1 THEN 1 ELSE 0,
   knames |-> IF t[4] = 2 /\ j % 3 = 0 THEN <<"", "spread", IF j % 2 = 0 THEN "n" ELSE "">> ELSE <<"", "", "">>,
   missing |-> t[5], sc |-> IF t[1] = "g" THEN <<Lat, Lon>> ELSE Pts, sv |-> [k \in 1..ns |-> k],
   sm |-> IF t[6] = 0 THEN <<>> ELSE [k \in 1..ns |-> IF k % 3 = 1 THEN 1 ELSE 0], scalar |-> t[6],
   name |-> IF t[7] = 1 THEN "renamed" ELSE "", long |-> IF t[7] = 2 THEN "new long" ELSE "", units |-> IF t[7] > 0 THEN "kg" ELSE "",
   fill |-> IF t[7] = 0 THEN ABSENT ELSE IF t[7] = 1 THEN -999 ELSE 0, via |-> j % 2,
   data |-> [w \in 1..t[8] |-> Var(t[2], w)]]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [j \in 1..Len(S) |-> Rec(j)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
