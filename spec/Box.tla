--------------------------------- MODULE Box --------------------------------
(* Box collocation onto ungridded samples (SepConstraintKdtree and the        *)
(* kernels).  A case e has sample and data coordinates (e.sc, e.dc: sequences *)
(* of [std, v]), D[s][k] the great-circle distance in metres, and the         *)
(* separations h (metres), a, t (coordinate units) and the pressure ratio     *)
(* pn/pd; ABSENT where not given.                                             *)
EXTENDS Bin

Tol == 5
CoordOf(cs, std, k) == ByStd(cs, std).v[k]
\* "in", "out" or "edge" (so close to the horizontal limit that rounding decides)
Horizontal(e, s, k) ==
    IF e.h = ABSENT THEN "in"
    ELSE IF e.D[s][k] <= e.h - Tol THEN "in" ELSE IF e.D[s][k] <= e.h + Tol THEN "edge" ELSE "out"
Vertical(e, s, k) == e.a = ABSENT \/ AbsI(CoordOf(e.sc, "altitude", s) - CoordOf(e.dc, "altitude", k)) < e.a
Temporal(e, s, k) == e.t = ABSENT \/ AbsI(CoordOf(e.sc, "time", s) - CoordOf(e.dc, "time", k)) < e.t
Pressure(e, s, k) ==
    \/ e.pn = ABSENT
    \/ LET p1 == CoordOf(e.sc, "air_pressure", s)  p2 == CoordOf(e.dc, "air_pressure", k) IN
       MaxSet({p1, p2}) * e.pd < e.pn * MinSet({p1, p2})
Others(e, s, k) == Vertical(e, s, k) /\ Temporal(e, s, k) /\ Pressure(e, s, k)
Required(e, s, vals) == {k \in 1..Len(vals) : vals[k] # MASKED /\ Horizontal(e, s, k) = "in" /\ Others(e, s, k)}
Possible(e, s, vals) == {k \in 1..Len(vals) : vals[k] # MASKED /\ Horizontal(e, s, k) = "edge" /\ Others(e, s, k)}

\* distance of a nearest-neighbour kernel, as a number to be minimised (a fraction for pressure)
Away(e, kernel, s, k) ==
    CASE kernel \in {"nn_h", "nn_horizontal_only"} -> e.D[s][k]
      [] kernel = "nn_a" -> AbsI(CoordOf(e.sc, "altitude", s) - CoordOf(e.dc, "altitude", k))
      [] kernel = "nn_t" -> AbsI(CoordOf(e.sc, "time", s) - CoordOf(e.dc, "time", k))
\* pressure: ratio of k no larger than that of j
RatioLe(e, s, k, j) ==
    LET p == CoordOf(e.sc, "air_pressure", s)
        N(x) == MaxSet({p, CoordOf(e.dc, "air_pressure", x)})
        M(x) == MinSet({p, CoordOf(e.dc, "air_pressure", x)})
    IN  N(k) * M(j) <= N(j) * M(k)
NearestIn(e, kernel, s, I) ==
    IF kernel = "nn_p" THEN {k \in I : \A j \in I : RatioLe(e, s, k, j)}
    ELSE LET slack == IF kernel \in {"nn_h", "nn_horizontal_only"} THEN 2 * Tol ELSE 0 IN
         {k \in I : \A j \in I : Away(e, kernel, s, k) <= Away(e, kernel, s, j) + slack}
\* this kernel finds the nearest non-missing point whatever the separations
Unlimited(kernel) == kernel = "nn_horizontal_only"
Nearest(kernel) == kernel \in {"nn_horizontal_only", "nn_h", "nn_a", "nn_t", "nn_p"}
SampleOk(e, kernel, s, vals, got) ==
    LET req == IF Unlimited(kernel) THEN {k \in 1..Len(vals) : vals[k] # MASKED} ELSE Required(e, s, vals)
        opt == IF Unlimited(kernel) THEN {} ELSE Possible(e, s, vals) IN
    \E X \in SUBSET opt :
       IF Nearest(kernel)
       THEN IF req \cup X = {} THEN got = <<MASKED>>
            ELSE \E k \in NearestIn(e, kernel, s, req \cup X) : got = <<100 * vals[k]>>
       ELSE LET I == SetToSeq(req \cup X) IN KernelOk(kernel, [j \in 1..Len(I) |-> vals[I[j]]], got)
=============================================================================
