------------------------------ MODULE GenFiles ------------------------------
EXTENDS GenSelect
VARIABLE g
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [n \in 1..Len(Lists) |-> FileCase(n)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
