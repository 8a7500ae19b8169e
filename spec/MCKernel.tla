------------------------------ MODULE MCKernel ------------------------------
(* The nearest-neighbour kernels scan the selected points once, keeping the   *)
(* best so far; the averaging kernels accumulate sums.  Both against Box/Bin. *)
EXTENDS Box
CONSTANTS N, M
VARIABLES pts, kernel, j, best, sum, sq
vars == <<pts, kernel, j, best, sum, sq>>
E == [sc |-> <<[std |-> "altitude", v |-> <<3>>], [std |-> "air_pressure", v |-> <<3>>], [std |-> "time", v |-> <<3>>]>>,
      dc |-> <<[std |-> "altitude", v |-> pts], [std |-> "air_pressure", v |-> pts], [std |-> "time", v |-> pts]>>,
      D |-> <<[k \in 1..Len(pts) |-> 100 * AbsI(pts[k] - 3)]>>]
Init == /\ pts \in UNION {[1..n -> 1..M] : n \in 0..N} /\ kernel \in {"nn_h", "nn_a", "nn_t", "nn_p"}
        /\ j = 1 /\ best = 0 /\ sum = 0 /\ sq = 0
Closer(k, b) == IF kernel = "nn_p" THEN ~RatioLe(E, 1, b, k) ELSE Away(E, kernel, 1, k) < Away(E, kernel, 1, b)
Scan == /\ j <= Len(pts) /\ j' = j + 1
        /\ best' = IF best = 0 THEN j ELSE IF Closer(j, best) THEN j ELSE best
        /\ sum' = sum + pts[j] /\ sq' = sq + pts[j] * pts[j] /\ UNCHANGED <<pts, kernel>>
Spec == Init /\ [][Scan]_vars
Done == j > Len(pts)
NearestFound == Done => IF pts = <<>> THEN best = 0 ELSE best \in NearestIn(E, kernel, 1, 1..Len(pts))
\* the mean in hundredths, rounded, and the corrected deviation are accepted; neighbours two units off are not
Hundredth(a, b) == (200 * a + b) \div (2 * b)
Stats == (Done /\ pts # <<>>) =>
    /\ MeanOk(pts, Hundredth(sum, Len(pts)))
    /\ ~MeanOk(pts, Hundredth(sum, Len(pts)) + 3)
    /\ Len(pts) > 1 => \A g \in 0..(200 * M) :
         (g * g * Len(pts) * (Len(pts) - 1) = 10000 * (Len(pts) * sq - sum * sum)) => StdOk(pts, g) /\ ~StdOk(pts, g + 5)
=============================================================================
