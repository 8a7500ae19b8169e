------------------------------- MODULE AggGrid ------------------------------
(* The grid an aggregation creates on one coordinate.                         *)
(* A request is [std, lo, hi, step]; ABSENT: not given.  Values in half units *)
(* (positions are doubled so that midpoints are integers).                    *)
EXTENDS Grid
CeilDiv(a, b) == -((-a) \div b)
DefLo(g, vals) == IF g.lo = ABSENT THEN MinSet(vals) ELSE g.lo
DefHi(g, vals) == IF g.hi = ABSENT THEN MaxSet(vals) ELSE g.hi
Count(lo, hi, step) == IF step = ABSENT THEN 1 ELSE CeilDiv(hi - lo, step)
\* doubled edges and midpoint of cell k
Edge2(lo, step, k) == 2 * (lo + (k - 1) * step)
Mid2(lo, hi, step, k) == IF step = ABSENT THEN lo + hi ELSE 2 * lo + (2 * k - 1) * step
Clip(std, x, q) == IF std = "latitude" THEN MaxSet({-180 * q, MinSet({180 * q, x})}) ELSE x
\* ax: observed axis [pts, bnds] in half units
AxisPoints(g, ax, lo, hi) ==
    LET n == Count(lo, hi, g.step) IN
    Len(ax.pts) = n /\ \A k \in 1..n : ax.pts[k] = Mid2(lo, hi, g.step, k)
AxisBounds(g, ax, lo, hi, q) ==
    LET n == Count(lo, hi, g.step)
        step == IF g.step = ABSENT THEN hi - lo ELSE g.step IN
    /\ Len(ax.bnds) = 2 * n
    /\ \A k \in 1..n :
         /\ ax.bnds[2*k-1] \in {Edge2(lo, step, k), Clip(g.std, Edge2(lo, step, k), q)}
         /\ \/ ax.bnds[2*k] \in {Edge2(lo, step, k + 1), Clip(g.std, Edge2(lo, step, k + 1), q)}
            \/ n = 1 /\ ax.bnds[2] = 2 * hi      \* a single cell may end where the range ends
=============================================================================
