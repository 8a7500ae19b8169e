CONSTANTS N = 4 MaxD = 3
INIT Init
NEXT Next
INVARIANT Exhaustive
