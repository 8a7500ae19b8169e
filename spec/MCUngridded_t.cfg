CONSTANTS N = 4 MaxOps = 4
SPECIFICATION Spec
INVARIANT Aligned NoneMissing
PROPERTY Independent
