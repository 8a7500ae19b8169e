CONSTANTS N = 3 MaxOps = 3
SPECIFICATION Spec
INVARIANT Aligned NoneMissing
PROPERTY Independent
