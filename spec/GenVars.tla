------------------------------ MODULE GenVars ------------------------------
EXTENDS GenSelect
VARIABLE g
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT, [n \in 1..NV |-> VarCase(n)])
GInit == g = 0
GNext == FALSE /\ g' = g
=============================================================================
