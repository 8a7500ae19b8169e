-------------------------------- MODULE Grid --------------------------------
(* Rectilinear grids: axes, C-order data, cell bounds.                        *)
EXTENDS Common
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
\* C-order position (1-based) of a 1-based index tuple
Flat(shape, ix) == 1 + SumSeq([k \in 1..Len(shape) |-> (ix[k] - 1) * Prod(SubSeq(shape, k + 1, Len(shape)))])
\* 1-based index tuple of a 1-based C-order position
Unflat(shape, p) == [k \in 1..Len(shape) |->
      (((p - 1) \div Prod(SubSeq(shape, k + 1, Len(shape)))) % shape[k]) + 1]
AxisOf(axes, s) == CHOOSE k \in 1..Len(axes) : axes[k].std = s
Increasing(p) == \A k \in 1..(Len(p) - 1) : p[k] < p[k + 1]
Decreasing(p) == \A k \in 1..(Len(p) - 1) : p[k] > p[k + 1]
PosOf(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
=============================================================================
