------------------------------ MODULE GenShape ------------------------------
(* Enumerates convex, concave, holed and two-part polygons at several places  *)
(* against points on, inside and outside them and grids in both conventions.  *)
EXTENDS Common, Json, IOUtils
VARIABLE g
\* rings in units of 5 degrees around the origin
Polys == << << << <<-2, -2>>, <<2, -2>>, <<2, 2>>, <<-2, 2>> >> >>,
            << << <<0, -2>>, <<2, 0>>, <<0, 2>>, <<-2, 0>> >> >>,
            << << <<-2, -2>>, <<2, -2>>, <<2, 2>>, <<0, 0>>, <<-2, 2>> >> >>,
            << << <<-3, -3>>, <<3, -3>>, <<3, 3>>, <<-3, 3>> >>, << <<-1, -1>>, <<1, -1>>, <<1, 1>>, <<-1, 1>> >> >>,
            << << <<-3, -2>>, <<-1, -2>>, <<-1, 2>>, <<-3, 2>> >>, << <<1, -1>>, <<3, -1>>, <<2, 1>> >> >> >>
Kinds == <<"polygon", "polygon", "polygon", "polygon", "multi">>
Centres == IF IOEnv.VERIF_TIER = "quick" THEN {-180, -20, 0, 180} ELSE {-180, -90, -20, 0, 15, 90, 180, 200}
All == {<<pl, cx, conv, desc, kd, nv>> \in (1..Len(Polys)) \X Centres \X {0, 1} \X {0, 1} \X {0, 1} \X {1, 2} : kd = 0 \/ desc = 0}
Seqs == SetToSeq(All)
Poly(pl, cx) == [r \in 1..Len(Polys[pl]) |-> [k \in 1..Len(Polys[pl][r]) |-> <<cx + 5 * Polys[pl][r][k][1], 5 * Polys[pl][r][k][2]>>]]
Wrap(x, lo) == lo + ((x - lo) % 360)
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Sorted(S) == SetToSortSeq(S, <)
Rec(j) ==
  LET t == Seqs[j]
      lo == IF t[3] = 0 THEN -180 ELSE 0
      lons == Sorted({Wrap(t[2] + 5 * k, lo) : k \in -4..4})
      lats == [k \in 1..7 |-> 5 * (k - 4)]
      n == Len(lons) * Len(lats)
      \* points in an order of their own
      perm == [k \in 1..n |-> ((k * 17) % n) + 1]
      vs == [x \in 1..t[6] |-> [v |-> [k \in 1..n |-> 100 * x + k], m |-> [k \in 1..n |-> IF (k + x) % 7 = 0 THEN 1 ELSE 0]]]
  IN IF t[5] = 0
     THEN [kind |-> "g", q |-> 1, poly |-> Poly(t[1], t[2]), type |-> Kinds[t[1]], list |-> IF t[6] = 2 THEN 1 ELSE 0, lims |-> <<>>,
           axes |-> IF t[1] % 2 = 0
                    THEN <<[std |-> "longitude", pts |-> lons, bnds |-> <<>>],
                           [std |-> "latitude", pts |-> IF t[4] = 1 THEN Rev(lats) ELSE lats, bnds |-> <<>>]>>
                    ELSE <<[std |-> "latitude", pts |-> IF t[4] = 1 THEN Rev(lats) ELSE lats, bnds |-> <<>>],
                           [std |-> "longitude", pts |-> lons, bnds |-> <<>>]>>,
           vars |-> vs]
     ELSE [kind |-> "u", q |-> 1, poly |-> Poly(t[1], t[2]), type |-> Kinds[t[1]], list |-> IF t[6] = 2 THEN 1 ELSE 0, lims |-> <<>>,
           shape |-> IF t[3] = 0 THEN <<n>> ELSE <<Len(lats), Len(lons)>>,
           coords |-> <<[std |-> "latitude", v |-> [k \in 1..n |-> lats[((perm[k] - 1) % Len(lats)) + 1]]],
                        [std |-> "longitude", v |-> [k \in 1..n |-> lons[((perm[k] - 1) \div Len(lats)) + 1]]]>>,
           vars |-> vs]
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [j \in 1..Len(Seqs) |-> Rec(j)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
