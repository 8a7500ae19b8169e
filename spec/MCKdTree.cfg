CONSTANTS N = 4 MaxD = 2
INIT Init
NEXT Next
INVARIANT Exhaustive
