------------------------------ MODULE LonRange ------------------------------
(* Normalising longitudes to start at a given value (set_longitude_range).    *)
EXTENDS SubsetGrid
InRange(x, s, Turn) == s <= x /\ x < s + Turn
\* the longitude axis after normalisation: a permutation of the source axis
LonAxisOk(ax, g, s, Turn) ==
    LET ix == IndexSeq(ax, g.pts, Turn) IN
    /\ Len(ix) = Len(ax.pts) /\ {ix[k] : k \in 1..Len(ix)} = 1..Len(ax.pts)
    /\ \A k \in 1..Len(g.pts) : InRange(g.pts[k], s, Turn)
    /\ Increasing(g.pts) \/ Decreasing(g.pts)
OtherAxisOk(ax, g) == g.pts = ax.pts /\ g.bnds = ax.bnds
AxesOk(axes, gaxes, s, Turn) ==
    \A a \in 1..Len(axes) : IF axes[a].std = "longitude" THEN LonAxisOk(axes[a], gaxes[a], s, Turn)
                            ELSE OtherAxisOk(axes[a], gaxes[a])
=============================================================================
